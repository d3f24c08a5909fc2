// Ring buffer against a reference byte queue.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>

const char *prop_rule = "a case is a history of up to 200 pushes and pulls on a ring buffer of capacity 1..4096 (mostly small, sizes skewed to exactly full, exactly the tail, one off); non-trivial when the data wrapped around the end at least once";
long prop_cases_quick = 20000, prop_cases_thorough = 250000; int prop_batch = 400;

void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(100000000); int cap = G.below(5) ? 1 + G.below(16) : G.coin() ? 1 + G.below(300) : 4096; long base = POOL.live;
    void *r = sh_rb_new(cap); CHECK(r, "a ring buffer of %d bytes cannot be created", cap);
    Bytes q; size_t qo = 0; unsigned seq = G.below(256); size_t moved = 0; int refused = 0; std::string h; int ops = 1 + G.below(200);
    auto len = [&] { return (int)(q.size() - qo); };
    for (int i = 0; i < ops; i++) {
        CHECK(sh_rb_len(r) == len(), "length reported %d, is %d", sh_rb_len(r), len()); CHECK(sh_rb_room(r) == cap - len(), "free space reported %d, is %d", sh_rb_room(r), cap - len());
        int n; int room = cap - len(), avail = len(); size_t wr = (q.size()) % cap, rd = qo % cap;
        if (G.coin()) {
            switch (G.below(6)) { case 0: n = room; break; case 1: n = cap - (int)wr; break; case 2: n = room + 1; break; case 3: n = 1; break; default: n = 1 + G.below(cap); }
            if (n < 1) n = 1; if (n > cap + 5) n = cap + 5;
            Bytes d(n, 0); for (auto &c : d) c = (char)seq++; char *p = (char *)malloc(n); memcpy(p, d.data(), n); int rc = sh_rb_push(r, p, n); memset(p, 0, n); free(p);
            if (n <= room) { CHECK(rc == 0, "pushing %d bytes with %d free of %d failed", n, room, cap); q += d; } else { CHECK(rc != 0, "pushing %d bytes with %d free succeeded", n, room); seq -= n; refused++; }
            if (h.size() < 500) h += strf("push%d ", n);
        } else {
            switch (G.below(6)) { case 0: n = avail; break; case 1: n = cap - (int)rd; break; case 2: n = avail + 1; break; case 3: n = 1; break; default: n = 1 + G.below(cap); }
            if (n < 1) n = 1; char *p = (char *)malloc(n); int out = -7; int rc = sh_rb_pull(r, n, p, &out);
            if (!avail) CHECK(rc != 0, "pulling from an empty ring buffer succeeded");
            else { CHECK(rc == 0, "pulling %d with %d available failed", n, avail); CHECK(out >= 1 && out <= n && out <= avail, "pull of %d returned %d with %d available", n, out, avail); if (memcmp(p, q.data() + qo, out)) fail("pulled bytes differ: %s instead of %s (capacity %d)", hex(Bytes(p, out), 40).c_str(), hex(q.substr(qo, out), 40).c_str(), cap); qo += out; moved += out; }
            free(p); if (h.size() < 500) h += strf("pull%d ", n);
        }
    }
    while (len()) { char b[64]; int out = 0; CHECK(sh_rb_pull(r, 64, b, &out) == 0 && out >= 1 && out <= len(), "draining failed with %d left", len()); if (memcmp(b, q.data() + qo, out)) fail("drained bytes differ"); qo += out; moved += out; }
    CHECK(sh_rb_len(r) == 0 && sh_rb_room(r) == cap, "drained buffer reports %d/%d", sh_rb_len(r), sh_rb_room(r));
    sh_rb_free(r); CHECK(POOL.live == base, "freeing leaves pool blocks");
    if (moved > (size_t)cap) nontrivial(); label(cap <= 16 ? "small" : "large"); label("refused-pushes", refused); label("bytes", moved);
    if (want_sample()) sample(strf("capacity %d: %s", cap, h.c_str()));
}
