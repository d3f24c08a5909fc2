// Queue, array, string list, chained buffer and substring search against reference containers.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>
#include <list>
#include <algorithm>

const char *prop_rule = "a case is one history on one of five containers (linked queue, fixed-size array, string list, chained buffer, substring search); non-trivial when at least three elements/parts were held at once (containers) or the text contains a proper prefix of the pattern before the result (search)";
long prop_cases_quick = 20000, prop_cases_thorough = 200000; int prop_batch = 400;
void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }

static void queue_case() {
    int nh = 1 + G.below(3), n = 1 + G.below(20); size_t sz = sh_q_size(); std::vector<char *> hs, es; std::vector<std::list<int>> model(nh); std::vector<int> where(n, -1); size_t peak = 0; std::string hist;
    for (int i = 0; i < nh; i++) { hs.push_back((char *)malloc(sz)); sh_q_init(hs[i]); } for (int i = 0; i < n; i++) es.push_back((char *)calloc(1, sz));
    auto idx = [&](void *p) { for (int i = 0; i < n; i++) if (es[i] == p) return i; return -1; };
    int ops = 1 + G.below(80);
    for (int k = 0; k < ops; k++) {
        int e = G.below(n), h = G.below(nh);
        if (where[e] < 0) { if (G.coin()) { sh_q_insert(hs[h], es[e]); model[h].push_front(e); hist += strf("front%d ", e); } else { sh_q_tail_insert(hs[h], es[e]); model[h].push_back(e); hist += strf("back%d ", e); } where[e] = h; }
        else { sh_q_remove(es[e]); model[where[e]].remove(e); where[e] = -1; hist += strf("rm%d ", e); }
        for (int q = 0; q < nh; q++) {
            CHECK((sh_q_empty(hs[q]) != 0) == model[q].empty(), "queue reported %sempty with %zu elements", sh_q_empty(hs[q]) ? "" : "not ", model[q].size());
            void *p = sh_q_head(hs[q]); for (int x : model[q]) { CHECK(p != sh_q_tail(hs[q]) && idx(p) == x, "queue walk meets %d, expected %d", idx(p), x); p = sh_q_next(p); } CHECK(p == sh_q_tail(hs[q]), "queue walk goes on beyond its %zu elements", model[q].size());
            p = sh_q_prev(hs[q]); for (auto it = model[q].rbegin(); it != model[q].rend(); ++it) { CHECK(idx(p) == *it, "backward walk meets %d, expected %d", idx(p), *it); p = sh_q_prev(p); } CHECK(p == hs[q], "backward walk goes on");
            peak = std::max(peak, model[q].size());
        }
    }
    if (peak >= 3) nontrivial(); label("queue"); if (want_sample()) sample("queue: " + hist.substr(0, 300));
}
static void arr_case() {
    int sz = 1 + G.size(2000); long base = POOL.live; void *a = sh_arr_new(sz); CHECK(a, "no array"); std::vector<Bytes> m; std::vector<char *> ptr; int n = 1 + G.below(60);
    for (int i = 0; i < n; i++) {
        if (G.below(4)) { char *p = (char *)sh_arr_push(a); CHECK(p, "push failed"); Bytes d = G.blob(sz); for (int j = 0; j < sz; j++) CHECK(!p[j], "pushed element is not zeroed"); memcpy(p, d.data(), sz); m.push_back(d); ptr.push_back(p); }
        CHECK(sh_arr_num(a) == (int)m.size(), "element count %d, expected %zu", sh_arr_num(a), m.size());
        int k = (int)G.below(m.size() + 3) - 1; void *g = sh_arr_get(a, k);
        if (k < 1 || k > (int)m.size()) CHECK(!g, "get(%d) of %zu returned an element", k, m.size()); else { CHECK(g == ptr[k - 1], "get(%d) returns another element", k); CHECK(!memcmp(g, m[k - 1].data(), sz), "element %d changed", k); }
    }
    for (size_t k = 0; k < m.size(); k++) CHECK(sh_arr_get(a, k + 1) && !memcmp(sh_arr_get(a, k + 1), m[k].data(), sz), "element %zu changed", k + 1);
    sh_arr_free(a); CHECK(POOL.live == base, "freeing the array leaves %ld blocks", POOL.live - base); if (m.size() >= 3) nontrivial(); label("array"); if (want_sample()) sample(strf("array of %zu elements of %d bytes", m.size(), sz));
}
static void list_case() {
    long base = POOL.live; void *h = nullptr; std::vector<Bytes> m; int n = 1 + G.below(30);
    for (int i = 0; i < n; i++) { Bytes s = G.blob(G.size(3000)); for (auto &c : s) if (!c) c = 'x'; char *p = strdup(s.c_str()); CHECK(sh_list_push(&h, p) == 0, "list push failed"); memset(p, 'Z', s.size()); free(p); m.push_back(s);
        void *l = h; for (auto &x : m) { CHECK(l, "list too short"); CHECK(sh_list_len(l) == (int)x.size() && !memcmp(sh_list_data(l), x.data(), x.size()) && sh_list_data(l)[x.size()] == 0, "list element differs"); l = sh_list_next(l); } CHECK(!l, "list too long"); }
    sh_list_free(h); CHECK(POOL.live == base, "freeing the list leaves %ld blocks", POOL.live - base); if (m.size() >= 3) nontrivial(); label("list"); if (want_sample()) sample(strf("list of %zu strings", m.size()));
}
static void meta_case() {
    long base = POOL.live; int n = 1 + G.below(6); std::vector<void *> ms; std::vector<Bytes> data; std::vector<int> cap;
    for (int i = 0; i < n; i++) { int c = G.below(4) ? G.size(200) : G.size(3000); void *m = sh_meta_new(c); CHECK(m, "no buffer of %d", c); CHECK(sh_meta_cap(m) == c && sh_meta_room(m) == c && sh_meta_len(m) == 0, "fresh buffer of %d reports %d/%d/%d", c, sh_meta_cap(m), sh_meta_room(m), sh_meta_len(m)); if (i) sh_meta_link(ms.back(), m); ms.push_back(m); data.push_back(""); cap.push_back(c); }
    std::vector<size_t> written(n, 0); int ops = 1 + G.below(40); int refused = 0;
    for (int k = 0; k < ops; k++) {
        int i = G.below(n);
        switch (G.weighted({6, 3, 1})) {
        case 0: { int room = cap[i] - (int)written[i]; int len = G.below(3) ? G.below(room + 2) : room + (int)G.below(2); if (len < 0) len = 0; Bytes d = G.blob(len); char *p = (char *)malloc(len + 1); memcpy(p, d.data(), len); int rc = sh_meta_put(ms[i], p, len); free(p); if (len <= room) { CHECK(rc == 0, "appending %d with %d free failed", len, room); data[i] += d; written[i] += len; } else { CHECK(rc != 0, "appending %d with %d free succeeded", len, room); refused++; } break; }
        case 1: { int c = G.below(data[i].size() + 1); sh_meta_consume(ms[i], c); data[i].erase(0, c); break; }
        case 2: sh_meta_clear(ms[i]); data[i].clear(); written[i] = 0; break;
        }
        size_t tot = 0; for (int j = 0; j < n; j++) { tot += data[j].size(); CHECK(sh_meta_len(ms[j]) == (int)data[j].size(), "part %d reports %d bytes, holds %zu", j, sh_meta_len(ms[j]), data[j].size()); CHECK(sh_meta_room(ms[j]) == cap[j] - (int)written[j], "part %d reports %d free", j, sh_meta_room(ms[j])); CHECK(!memcmp(sh_meta_pos(ms[j]), data[j].data(), data[j].size()), "part %d changed", j); }
        CHECK(sh_meta_lens(ms[0]) == (int)tot, "chain length %d, expected %zu", sh_meta_lens(ms[0]), tot);
    }
    Bytes all; for (auto &d : data) all += d;
    void *d = (all.size() > 0 || n == 1) ? sh_meta_dump(ms[0]) : nullptr;
    if (all.size() > 0 || n == 1) { CHECK(d, "flattening %zu bytes failed", all.size()); CHECK(sh_meta_len(d) == (int)all.size() && !memcmp(sh_meta_pos(d), all.data(), all.size()), "flattened copy differs from the concatenation"); if (d != ms[0]) sh_meta_free(d); }
    sh_meta_free(ms[0]); CHECK(POOL.live == base, "freeing the chain leaves %ld blocks", POOL.live - base); if (n >= 3) nontrivial(); label("chained-buffer"); label("refused-appends", refused); if (want_sample()) sample(strf("chain of %d buffers, %zu bytes, %d operations", n, all.size(), ops));
}
static void find_case() {
    int alpha = G.one({1, 2, 3, 256}); Bytes f, s; size_t m = 1 + G.below(6); for (size_t i = 0; i < m; i++) f += alpha == 256 ? (char)G.below(256) : (char)('a' + G.below(alpha));
    while (s.size() < m + G.below(20)) { switch (G.below(4)) { case 1: s += f.substr(0, G.below(f.size() + 1)); break; case 2: s += f.substr(G.below(f.size())); break; default: s += alpha == 256 ? (char)G.below(256) : (char)('a' + G.below(alpha)); } }
    size_t n = G.coin() ? s.size() : m + G.below(s.size() - m + 1); // the text continues after the given length
    bool exact = G.coin(); if (exact) s.resize(n);
    char *p = (char *)malloc(s.size()), *q = (char *)malloc(m); memcpy(p, s.data(), s.size()); memcpy(q, f.data(), m);
    const unsigned char *r = sh_find((unsigned char *)p, n, (unsigned char *)q, m); size_t want = s.substr(0, n).find(f);
    if (want == Bytes::npos) CHECK(!r, "search for %s in the first %zu bytes of %s reports position %ld", quoted(f).c_str(), n, quoted(s).c_str(), (long)(r - (unsigned char *)p)); else CHECK(r == (unsigned char *)p + want, "search for %s in the first %zu bytes of %s reports %ld, first occurrence is %zu", quoted(f).c_str(), n, quoted(s).c_str(), r ? (long)(r - (unsigned char *)p) : -1L, want);
    free(p); free(q); if (m > 1 && s.find(f.substr(0, m - 1)) != s.npos) nontrivial(); label("search"); if (want_sample()) sample("find " + quoted(f) + " in " + quoted(s.substr(0, n)));
}
void prop_case() { steps_reset(100000000); switch (G.below(5)) { case 0: queue_case(); break; case 1: arr_case(); break; case 2: list_case(); break; case 3: meta_case(); break; default: find_case(); } }
