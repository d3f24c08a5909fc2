// Hash table against a reference map.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>
#include <map>

const char *prop_rule = "a case is a history of up to 200 add/find/delete operations with binary keys of 1..1000 bytes and values of 1..2000 bytes on a table of 1..1000 slots, optionally with allocation failures; non-trivial when at least 4 keys were stored and a stored key was found, deleted or added again";
long prop_cases_quick = 12000, prop_cases_thorough = 150000; int prop_batch = 300;

static std::map<Bytes, Bytes> m; static void *h; static long hits, again, dels;
static Bytes find(const Bytes &k, size_t n, bool &found) { Bytes kc = k; char *p = (char *)malloc(kc.size()); memcpy(p, kc.data(), kc.size()); void *v = sh_hash_find(h, p, kc.size()); free(p); found = v; return v ? Bytes((char *)v, n) : Bytes(); }
static void look(const Bytes &k) {
    auto it = m.find(k); bool f; Bytes v = find(k, it == m.end() ? 0 : it->second.size(), f);
    if (it == m.end()) CHECK(!f, "key %s is absent but a lookup found something", hex(k, 40).c_str());
    else { CHECK(f, "key %s was stored but a lookup does not find it", hex(k, 40).c_str()); CHECK(v == it->second, "lookup of %s returns %s instead of %s", hex(k, 40).c_str(), hex(v, 40).c_str(), hex(it->second, 40).c_str()); hits++; }
}
void prop_setup() { sim_clock_active(true); sim_in_case = true; engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(200000000); std::vector<Bytes> keys; int nk = 1 + G.below(30); int style = G.below(4);
    for (int i = 0; i < nk; i++) {
        Bytes k; switch (style) { case 0: k = G.rbytes(1 + G.below(4)); break; case 1: k = Bytes(1 + G.below(6), 0); break; case 2: k = G.blob(1 + G.size(999)); break; default: k = strf("host%d.example.com", (int)G.below(40)); }
        if (i && G.chance(1, 4)) { k = keys[G.below(keys.size())]; if (G.coin() && k.size() > 1) k.pop_back(); else if (G.coin()) k += (char)G.below(3); else k[G.below(k.size())] ^= 1; }
        if (k.empty()) k = "a"; if (k.size() > 1000) k.resize(1000); keys.push_back(k);
    }
    long base = POOL.live; int slots = G.one({1, 2, 7, 64, 0}); if (!slots) slots = 1 + G.below(1000);
    h = sh_hash_new(slots); CHECK(h, "a table of %d slots cannot be created", slots);
    bool faults = G.chance(1, 5); int ops = 1 + G.below(200); size_t peak = 0;
    for (int i = 0; i < ops; i++) {
        const Bytes &k = keys[G.below(keys.size())];
        switch (G.weighted({5, 4, 3})) {
        case 0: {
            Bytes v = G.chance(1, 8) ? G.blob(1 + G.below(2000)) : G.rbytes(1 + G.below(6)); char *kp = (char *)malloc(k.size()), *vp = (char *)malloc(v.size()); memcpy(kp, k.data(), k.size()); memcpy(vp, v.data(), v.size());
            bool had = m.count(k); long before = POOL.live; bool flt = faults && G.chance(1, 4); if (flt) { POOL.allocs = 0; POOL.fail_after = G.below(3); POOL.denied = 1; }
            int rc = sh_hash_add(h, kp, k.size(), vp, v.size()); POOL.fail_after = -1;
            memset(kp, 0x5a, k.size()); memset(vp, 0xa5, v.size()); free(kp); free(vp);
            if (had) again++;
            else if (rc == 0) m[k] = v;
            else { CHECK(flt, "adding a key of %zu and value of %zu bytes failed", k.size(), v.size()); CHECK(POOL.live == before, "a failed add kept %ld pool blocks", POOL.live - before); label("add-failed"); }
            look(k); break; }
        case 1: look(k); break;
        case 2: { bool had = m.erase(k); long before = POOL.live; sh_hash_del(h, (void *)k.data(), k.size()); if (had) { dels++; CHECK(POOL.live < before, "deleting a key released nothing"); } else CHECK(POOL.live == before, "deleting an absent key changed the table"); look(k); break; }
        }
        peak = std::max(peak, m.size());
    }
    for (auto &k : keys) look(k);
    for (auto &kv : std::map<Bytes, Bytes>(m)) look(kv.first);
    sh_hash_free(h); CHECK(POOL.live == base, "destroying the table leaves %ld pool blocks", POOL.live - base);
    if (peak >= 4 && (hits && (again || dels))) nontrivial();
    label(strf("style%d", style)); label("deletes", dels); label("duplicate-adds", again); label(slots == 1 ? "one-slot" : "many-slots");
    if (want_sample()) sample(strf("%d slots, %d keys (first %s), %d operations, %ld deletions, %ld repeated adds", slots, nk, hex(keys[0], 20).c_str(), ops, dels, again));
}
