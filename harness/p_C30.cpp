// The helpers that take a lock, used by several threads at once. One thread runs at a time; at every memory access
// of the program's code and at every lock operation another one may be made to run instead.
#include "sim.h"
#include "shim.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

const char *prop_rule = "a case is 2..4 threads, each with up to 25 operations on one ring buffer (capacity 1..64, either several producers and one consumer or one producer and several consumers) or on the memory pool (also with a size class nearly exhausted), switched at drawn memory accesses and lock operations; non-trivial when a thread was interrupted inside an operation and another one completed an operation meanwhile";
long prop_cases_quick = 16000, prop_cases_thorough = 250000; int prop_batch = 200;
extern "C" { extern int (*sim_mutex)(void *, int); }

// --- threads, one at a time
static void take(sem_t *s) { while (sem_wait(s) < 0) {} }
struct Th { pthread_t t; sem_t go; bool done = false, inop = false; void *waits = nullptr; long ops = 0; };
static std::vector<Th> th; static int cur = -1; static bool on; static long left_, period; static std::map<void *, int> owner; static sem_t alldone; static long cuts, overlaps, switches;
static void rearm() { left_ = G.chance(1, 8) ? 1 + G.below(400) : 1 + G.below(period); }
static bool runnable(int i) { return !th[i].done && (!th[i].waits || !owner.count(th[i].waits)); }
static void give(bool must) {   // another thread goes on, if there is one
    std::vector<int> c; for (int i = 0; i < (int)th.size(); i++) if (i != cur && runnable(i)) c.push_back(i);
    if (c.empty()) { if (!must) return; if (runnable(cur)) return; for (auto &x : th) if (!x.done) fail("all threads wait for each other"); sem_post(&alldone); return; }
    int me = cur, to = c[G.below(c.size())]; cur = to; switches++; bool fin = th[me].done; sem_post(&th[to].go); if (!fin) take(&th[me].go); }
static void point() {
    if (!on || --left_ > 0) return;
    rearm(); long b = 0; for (auto &x : th) b += x.ops; int me = cur; give(false); long a = 0; for (auto &x : th) a += x.ops; if (th[me].inop) { cuts++; if (a > b) overlaps++; }
}
static int mutex(void *m, int what) {
    if (!on) return 0;
    if (what == 2) { owner.erase(m); point(); return 0; }
    point(); if (what == 1 && owner.count(m)) return EBUSY;
    while (owner.count(m)) { th[cur].waits = m; int me = cur; give(true); th[me].waits = nullptr; }
    owner[m] = cur; return 0;
}
extern "C" {
#define CB(k, n) void __sanitizer_cov_##k##n(void *) { point(); }
CB(load, 1) CB(load, 2) CB(load, 4) CB(load, 8) CB(load, 16) CB(store, 1) CB(store, 2) CB(store, 4) CB(store, 8) CB(store, 16)
}
static std::function<void(int)> body;
static void *entry(void *p) { int i = (int)(long)p; take(&th[i].go); body(i); th[i].done = true; give(true); return nullptr; }
static void run_threads(int n, std::function<void(int)> f) {
    body = f; th.resize(n); sem_init(&alldone, 0, 0); period = G.one({3, 6, 12, 30}); rearm(); sim_mutex = mutex; cur = 0; on = true;
    for (int i = 0; i < n; i++) sem_init(&th[i].go, 0, 0);
    for (int i = 0; i < n; i++) while (pthread_create(&th[i].t, nullptr, entry, (void *)(long)i)) usleep(1000);
    sem_post(&th[0].go); take(&alldone); on = false; sim_mutex = nullptr;
    for (auto &x : th) pthread_join(x.t, nullptr);
}
#define OP(x) do { th[i].inop = true; x; th[i].inop = false; th[i].ops++; } while (0)

// --- ring buffer
static void ring() {
    int cap = G.below(4) ? 1 + G.below(16) : 1 + G.below(64); void *r = sh_rb_new(cap); CHECK(r, "a ring buffer of %d bytes cannot be created", cap);
    bool many = G.coin(); int n = 2 + G.below(3); int nops = 3 + G.below(22); label(many ? "several producers" : "several consumers");
    if (many) { // thread 0 consumes; every pushed chunk must come out in one piece and in the order of its producer
        Bytes out; std::vector<std::vector<Bytes>> sent(n); int all = n - 1;
        run_threads(n, [&](int i) {
            if (i) { for (int k = 0; k < nops; k++) { int len = 1 + G.below(std::min(cap, 9)); Bytes d(len, 0); for (int j = 0; j < len; j++) d[j] = (char)(i << 6 | (j == 0 ? 32 : 0) | (k & 31)); char *p = (char *)malloc(len); memcpy(p, d.data(), len); int rc = 0; OP(rc = sh_rb_push(r, p, len)); memset(p, 0, len); free(p); if (rc == 0) sent[i].push_back(d); else label("push-refused"); } all--; }
            else { int idle = 0; for (int k = 0; k < 400 && idle < 40; k++) { int len = 1 + G.below(cap + 2), got = -7, rc = 0; char *p = (char *)malloc(len); OP(rc = sh_rb_pull(r, len, p, &got)); if (rc == 0) { CHECK(got >= 1 && got <= len, "a pull of %d bytes returned %d", len, got); out.append(p, got); idle = 0; } else if (!all) idle = 99; else { idle++; give(false); } free(p); } }
        });
        for (;;) { char b[64]; int got = 0; if (sh_rb_len(r) == 0) break; CHECK(sh_rb_pull(r, 64, b, &got) == 0 && got >= 1 && got <= 64, "draining failed with %d bytes reported", sh_rb_len(r)); out.append(b, got); if (out.size() > 4000) fail("more bytes come out than were pushed"); }
        std::vector<size_t> next(n); size_t o = 0;
        while (o < out.size()) { int i = (unsigned char)out[o] >> 6; CHECK(i >= 1 && i < n && next[i] < sent[i].size(), "a byte that nobody pushed at offset %zu: %s", o, hex(out).c_str()); const Bytes &d = sent[i][next[i]++]; CHECK(out.compare(o, d.size(), d) == 0, "at offset %zu chunk %s is torn: %s (capacity %d)", o, hex(d).c_str(), hex(out).c_str(), cap); o += d.size(); }
        for (int i = 1; i < n; i++) CHECK(next[i] == sent[i].size(), "%zu chunks of producer %d were lost", sent[i].size() - next[i], i);
    } else { // thread 0 produces distinct bytes; pulled pieces are runs that cover them once
        Bytes all; std::vector<Bytes> got; bool fin = false;
        run_threads(n, [&](int i) {
            if (!i) { for (int k = 0; k < 2 * nops && all.size() < 220; k++) { int len = 1 + G.below(std::min(cap, 9)); Bytes d; for (int j = 0; j < len; j++) d += (char)(all.size() + j); char *p = (char *)malloc(len); memcpy(p, d.data(), len); int rc = 0; OP(rc = sh_rb_push(r, p, len)); memset(p, 255, len); free(p); if (rc == 0) all += d; else give(false); } fin = true; }
            else for (int k = 0, idle = 0; k < 300 && idle < 40; k++) { int len = 1 + G.below(std::min(cap, 12)), o = -7, rc = 0; char *p = (char *)malloc(len); OP(rc = sh_rb_pull(r, len, p, &o)); if (rc == 0) { CHECK(o >= 1 && o <= len, "a pull of %d bytes returned %d", len, o); got.push_back(Bytes(p, o)); idle = 0; } else if (fin) idle = 99; else { idle++; give(false); } free(p); }
        });
        while (sh_rb_len(r)) { char b[64]; int o = 0; CHECK(sh_rb_pull(r, 64, b, &o) == 0 && o >= 1 && o <= 64, "draining failed with %d bytes reported", sh_rb_len(r)); got.push_back(Bytes(b, o)); if (got.size() > 4000) fail("more bytes come out than were pushed"); }
        std::vector<int> seen(256); for (auto &g : got) for (size_t j = 0; j < g.size(); j++) { unsigned v = (unsigned char)g[j]; CHECK(v < all.size(), "a byte that was not pushed: %s", hex(g).c_str()); CHECK(!seen[v]++, "byte %u was pulled twice (capacity %d)", v, cap); CHECK(!j || v == (unsigned char)g[j - 1] + 1u, "a pulled piece is not a run of the pushed bytes: %s", hex(g).c_str()); }
        for (size_t v = 0; v < all.size(); v++) CHECK(seen[v], "byte %zu of %zu was lost (capacity %d)", v, all.size(), cap);
    }
    CHECK(sh_rb_len(r) == 0 && sh_rb_room(r) == cap, "the drained buffer reports %d bytes, %d free of %d", sh_rb_len(r), sh_rb_room(r), cap); sh_rb_free(r);
}
// --- memory pool
struct B { unsigned char *p; int n; unsigned char v; };
static void pool() {
    static const int sz[] = {512, 1024, 2048, 4096}; int c = G.below(4); int size = sz[c] - (int)G.below(100); bool tight = G.chance(1, 3); long spare = -1; std::vector<void *> hog; label(tight ? "pool nearly exhausted" : "pool");
    if (tight) { for (void *p; (p = __real_mem_pool_alloc(size));) hog.push_back(p); spare = 1 + G.below(4); for (int k = 0; k < spare; k++) { __real_mem_pool_free(hog.back()); hog.pop_back(); } }
    int n = 2 + G.below(3), nops = 2 + G.below(24); std::map<unsigned char *, int> live;
    auto verify = [](const B &b) { for (int j = 0; j < b.n; j += j < 64 ? 1 : 61) if (b.p[j] != b.v) fail("contents of a live block changed at offset %d", j); };
    std::vector<std::vector<B>> own(n);
    run_threads(n, [&](int i) {
        auto &o = own[i];
        for (int k = 0; k < nops; k++) {
            if (!o.empty() && G.below(5) < 2) { size_t x = G.below(o.size()); B b = o[x]; verify(b); live.erase(b.p); o.erase(o.begin() + x); int rc = 0; OP(rc = __real_mem_pool_free(b.p)); CHECK(rc == 0, "freeing a live block failed"); continue; }
            int m = tight || G.coin() ? size : 1 + (int)G.below(4096); unsigned char *p = nullptr; OP(p = (unsigned char *)__real_mem_pool_alloc(m));
            if (!p) { CHECK(tight, "an allocation of %d bytes failed in a pool that is not exhausted", m); label("refused"); give(false); continue; }
            CHECK((uintptr_t)p % 8 == 0, "block not aligned"); for (int j = 0; j < m; j++) if (p[j]) fail("a new block of %d bytes is not zero at offset %d", m, j);
            auto it = live.upper_bound(p); CHECK(it == live.end() || p + m <= it->first, "a new block overlaps a live one"); if (it != live.begin()) { --it; CHECK(it->first + it->second <= p, "a new block overlaps a live one"); }
            live[p] = m; B b{p, m, (unsigned char)(1 + i * 60 + k)}; memset(p, b.v, m); o.push_back(b); if (tight) CHECK((long)live.size() <= spare, "%zu blocks handed out with %ld left", live.size(), spare);
        }
    });
    for (auto &o : own) for (auto &b : o) { verify(b); CHECK(__real_mem_pool_free(b.p) == 0, "freeing a live block failed"); }
    if (tight) { for (long k = 0; k < spare; k++) { void *p = __real_mem_pool_alloc(size); CHECK(p, "only %ld of %ld blocks can be allocated again", k, spare); hog.push_back(p); } CHECK(!__real_mem_pool_alloc(size), "there are more blocks than before"); }
}
void prop_setup() { sim_clock_active(true); if (sh_pool_init() != 0) fail("mem_pool_init failed"); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(400000000); int kind = G.below(5); kind < 3 ? ring() : pool();
    if (overlaps) nontrivial(); label("switches", switches); label("interrupted operations", cuts); label("overlapped operations", overlaps);
    if (want_sample()) sample(strf("%s, %zu threads, %ld switches, %ld inside operations", kind < 3 ? "ring buffer" : "pool", th.size(), switches, cuts));
}
