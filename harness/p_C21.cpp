// Binary search tree against a reference multiset.
#include "sim.h"
#include "shim.h"
#include <set>

const char *prop_rule = "a case is a history of up to 300 add/delete/find operations over 64-bit keys (small ranges around -1, extremes, duplicates), one in 700 on a tree of 2000..25000 keys inserted in comb, chain or random order; non-trivial when at least 4 keys were present and at least 2 present keys were deleted";
long prop_cases_quick = 16000, prop_cases_thorough = 200000; int prop_batch = 300;

static std::multiset<long long> m; static void *t; static std::string h;
static void audit() {
    std::vector<long long> o(m.size() + 8); long n = sh_bst_inorder(t, o.data(), o.size());
    CHECK(n == (long)m.size(), "tree has %ld nodes, expected %zu after %s", n, m.size(), h.c_str());
    long i = 0; for (auto k : m) { CHECK(o[i] == k, "in-order position %ld holds %lld, expected %lld after %s", i, o[i], k, h.c_str()); i++; }
    CHECK(sh_bst_count(t) == (int)m.size(), "element count is %d, expected %zu", sh_bst_count(t), m.size());
}
void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(400000000); long base = W.live_malloc; t = sh_bst_new(); CHECK(t, "no tree"); long empty = W.live_malloc; int range = G.one({6, 12, 40, 1000}); int off = G.one({0, -3, -20, -1}); bool ext = G.chance(1, 6); int ops = 1 + G.below(G.coin() ? 20 : 300); int dels = 0; size_t peak = 0;
    // Large trees: combs (a long chain whose nodes have a leaf on the other side), chains, random order; then more operations on them.
    bool large = G.chance(1, 700); long every = 1;
    if (large) {
        int n = G.one({2000, 9000, 18000, 22000}) + G.below(3000), shape = G.below(5), dir = G.coin() ? 1 : -1; label(strf("large, shape %d", shape)); h = strf("%d keys in shape %d, direction %d; ", n, shape, dir); every = 400; ops = 1 + G.below(300); range = 4 * n; off = -2 * n; ext = false;
        std::vector<long long> ks; uint64_t x = G.any64() | 1;
        for (int i = 0; i < n; i++) switch (shape) {
            case 0: ks.push_back(dir * (2LL * (i / 2) + (i % 2 ? -1 : 0)) - dir * n); break;
            case 1: ks.push_back(dir * (long long)i); break;
            case 2: ks.push_back(i % 2 ? i : -i); break;
            case 3: ks.push_back(i < n / 2 ? dir * 2LL * i : dir * (2LL * (i - n / 2) - 1)); break;
            default: x ^= x << 13; x ^= x >> 7; x ^= x << 17; ks.push_back((long long)(x % (4 * n)) - 2 * n);
        }
        for (auto k : ks) { CHECK(sh_bst_add(t, k) == 0, "adding %lld failed", k); m.insert(k); } audit();
    }
    for (int i = 0; i < ops; i++) {
        long long k = off + (long long)G.below(range); if (ext && G.chance(1, 3)) k = G.one<long long>({INT64_MIN, INT64_MAX, -1, 0, INT64_MIN + 1}); else if (ext) k = (long long)G.any64();
        if (!m.empty() && G.chance(1, 3)) { auto it = m.begin(); std::advance(it, G.below(m.size())); k = *it; }
        switch (G.weighted({5, 4, 2})) {
        case 0: if (h.size() < 400) h += strf("add(%lld) ", k); CHECK(sh_bst_add(t, k) == 0, "adding %lld failed", k); m.insert(k); break;
        case 1: { if (h.size() < 400) h += strf("del(%lld) ", k); int rc = sh_bst_del(t, k); auto it = m.find(k); if (it == m.end()) CHECK(rc != 0, "deleting the absent key %lld succeeded after %s", k, h.c_str()); else { CHECK(rc == 0, "deleting the present key %lld failed after %s", k, h.c_str()); m.erase(it); dels++; } break; }
        case 2: { long long g = 0; int f = sh_bst_find(t, k, &g); CHECK(f == (int)(m.count(k) > 0), "find(%lld) says %s after %s", k, f ? "present" : "absent", h.c_str()); if (f) CHECK(g == k, "find(%lld) returns a node with key %lld", k, g); break; }
        }
        peak = std::max(peak, m.size()); if (every == 1 || i % every == every - 1 || i + 1 == ops) audit();
    }
    sh_bst_free(t); long left = W.live_malloc - base; CHECK(left >= 0 && left <= empty - base, "freeing the tree leaves %ld nodes allocated after %s", left - (empty - base), h.c_str());
    if (peak >= 4 && dels >= 2) nontrivial(); label("deletions", dels); if (ext) label("extreme-keys"); if (!large) label(strf("offset%d", off));
    if (want_sample()) sample(h);
}
