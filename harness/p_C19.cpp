// Multi-key search against naive substring search.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>

const char *prop_rule = "a case is a key set of 1..40 byte strings (nested, overlapping, prefix/suffix sharing, all byte values, up to 3900 bytes in total; one in 800 has thousands of keys, every byte value at each of up to 31 depths) and 1..12 texts assembled from fragments of the keys; non-trivial when both a text with and a text without a match, or a text whose match follows a failed partial match, occur";
long prop_cases_quick = 16000, prop_cases_thorough = 200000; int prop_batch = 300;

void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
static Bytes gkey(int alpha) { size_t n = 1 + (G.chance(1, 10) ? G.below(60) : G.below(7)); Bytes k; for (size_t i = 0; i < n; i++) k += alpha == 256 ? (char)G.below(256) : alpha == 128 ? (char)(128 + G.below(128)) : (char)('a' + G.below(alpha)); return k; }
void prop_case() {
    steps_reset(400000000); int alpha = G.one({2, 3, 2, 5, 128, 256}); std::vector<Bytes> keys; size_t total = 0; bool big = G.chance(1, 40); int nk = big ? 200 : 1 + (G.coin() ? G.below(4) : G.below(40));
    for (int i = 0; i < nk; i++) {
        Bytes k = gkey(alpha);
        if (i && G.chance(1, 3)) { Bytes &o = keys[G.below(keys.size())]; size_t a = G.below(o.size()), l = 1 + G.below(o.size() - a); Bytes f = o.substr(a, l); k = G.coin() ? f : G.coin() ? f + k : k + f; }
        if (big) k = G.blob(10 + G.below(20));
        if (total + k.size() > 3900) break; total += k.size(); keys.push_back(k);
    }
    // Large sets: wide and deep together (every byte value at each of many depths), or thousands of keys.
    if (G.chance(1, 800)) {
        keys.clear(); label("huge-set"); int depth = 2 + G.below(30); Bytes path; int turn = G.below(4); for (int i = 0; i < depth; i++) path += turn == 0 ? (char)255 : turn == 1 ? (char)0 : (char)G.below(256);
        if (G.chance(3, 4)) { Bytes tail = G.coin() ? Bytes() : gkey(256).substr(0, 2); for (int d = 0; d < depth; d++) for (int c = 0; c < 256; c++) if (d + 1 == depth || (char)c != path[d]) keys.push_back(path.substr(0, d) + (char)c + tail); }
        else { size_t t = 0; while (t < 16000) { keys.push_back(G.blob(2 + G.below(6))); t += keys.back().size(); } }
    }
    long base = W.live_malloc; void *a = sh_ac_new(); CHECK(a, "no context");
    for (auto &k : keys) { char *p = (char *)malloc(k.size()); memcpy(p, k.data(), k.size()); CHECK(sh_ac_add(a, p, k.size()) == 0, "adding a key failed"); memset(p, 0, k.size()); free(p); }
    CHECK(sh_ac_build(a) == 0, "building failed");
    int nt = 1 + G.below(12), yes = 0, no = 0; std::string shown;
    for (int t = 0; t < nt; t++) {
        Bytes s; int parts = G.below(6);
        for (int j = 0; j < parts; j++) {
            Bytes &k = keys[G.below(keys.size())];
            switch (G.below(5)) { case 0: s += k.substr(0, G.below(k.size())); break; case 1: s += k.substr(G.below(k.size())); break; case 2: { size_t x = G.below(k.size()); s += k.substr(x, G.below(k.size() - x)); break; } case 3: s += k; if (!s.empty()) s[G.below(s.size())] ^= (char)(1 + G.below(alpha > 5 ? 255 : 1)); break; default: s += gkey(alpha); }
        }
        if (G.chance(1, 5)) s += keys[G.below(keys.size())];
        if (s.empty()) s = gkey(alpha);
        bool want = false; for (auto &k : keys) want |= s.find(k) != s.npos;
        char *p = (char *)malloc(s.size()); memcpy(p, s.data(), s.size()); sh_ac_reset(a); bool got = sh_ac_find(a, p, s.size()) == 0; free(p);
        if (got != want) { std::string ks; for (auto &k : keys) if (ks.size() < 900) ks += quoted(k, 40) + " "; fail("text %s: search says %s, keys {%s}", quoted(s, 120).c_str(), got ? "match" : "no match", ks.c_str()); }
        (want ? yes : no)++; if (shown.size() < 200) shown += quoted(s, 30) + (want ? "+ " : "- ");
    }
    sh_ac_free(a); CHECK(W.live_malloc == base, "freeing leaves %ld heap blocks", W.live_malloc - base);
    if (yes && no) nontrivial();
    label("texts-with-match", yes); label("texts-without", no); label(strf("alphabet-%d", alpha)); if (big) label("big-set");
    if (want_sample()) { std::string ks; for (auto &k : keys) if (ks.size() < 200) ks += quoted(k, 20) + " "; sample("keys " + ks + "texts " + shown); }
}
