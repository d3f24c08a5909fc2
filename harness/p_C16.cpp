// Memory pool: histories of allocations, writes and frees of the real pool
// against a reference set of live blocks.
#include "sim.h"
#include "shim.h"
#include <cstring>
#include <map>

const char *prop_rule = "a case is a history of up to 400 single and bulk alloc/fill/free operations on the real pool over all six size classes (sizes skewed to class boundaries, and above 16384); non-trivial when at least 10 blocks were live at once and at least one was freed and its class allocated again";
long prop_cases_quick = 6000, prop_cases_thorough = 60000;
int prop_batch = 400;

struct B { char *p; int n; uint64_t pat; };
static std::vector<B> live; static std::map<uintptr_t, uintptr_t> spans; static long cls_live[6], cap_seen[6]; static long frees, reuse, denied;
static int cls(int n) { int c = 512; for (int i = 0; i < 6; i++, c *= 2) if (n <= c) return i; return 6; }
static char patb(uint64_t pat, size_t i) { return (char)((pat * 0x9e3779b97f4a7c15ULL >> 32) + i * 31 + 1); }
static void fill(B &b) { for (int i = 0; i < b.n; i++) b.p[i] = patb(b.pat, i); }
static void verify(const B &b) { for (int i = 0; i < b.n; i++) if (b.p[i] != patb(b.pat, i)) fail("contents of a live block of %d bytes changed at offset %d", b.n, i); }
static bool alloc(int n) {
    char *p = (char *)__real_mem_pool_alloc(n); int c = cls(n);
    if (c == 6) { CHECK(!p, "an allocation of %d bytes succeeded (limit 16384)", n); return false; }
    if (!p) {
        // at least 1024 blocks of every class; and never fewer than once reached
        CHECK(cls_live[c] >= 1024, "allocation of %d bytes failed with only %ld blocks of its class in use", n, cls_live[c]);
        if (cap_seen[c]) CHECK(cls_live[c] == cap_seen[c], "class of %d bytes exhausted at %ld blocks, earlier at %ld", n, cls_live[c], cap_seen[c]);
        cap_seen[c] = cls_live[c]; denied++; return false;
    }
    if (cap_seen[c]) CHECK(cls_live[c] < cap_seen[c], "class of %d bytes grew beyond %ld blocks", n, cap_seen[c]);
    uintptr_t a = (uintptr_t)p; CHECK(a % 8 == 0, "block of %d bytes is not 8-byte aligned", n);
    for (int i = 0; i < n; i++) if (p[i]) fail("new block of %d bytes is not zero at offset %d", n, i);
    auto it = spans.upper_bound(a); if (it != spans.end()) CHECK(a + n <= it->first, "new block of %d bytes overlaps a live block", n);
    if (it != spans.begin()) { --it; CHECK(it->second <= a, "new block of %d bytes overlaps a live block", n); }
    spans[a] = a + n; B b{p, n, G.below(1 << 20)}; fill(b); live.push_back(b); cls_live[c]++; if (frees) reuse++;
    return true;
}
static void release(size_t i) {
    B b = live[i]; verify(b); spans.erase((uintptr_t)b.p); CHECK(__real_mem_pool_free(b.p) == 0, "freeing a live block of %d bytes failed", b.n);
    cls_live[cls(b.n)]--; live[i] = live.back(); live.pop_back(); frees++;
}
static int gsize() {
    switch (G.weighted({4, 4, 2, 1})) { case 0: return 1 + G.below(512); case 1: { int c = 512 << G.below(6); return c + (int)G.range(-2, 1); } case 2: return 1 + G.below(16384); default: return 16385 + G.below(100000); }
}
// the general allocator, and addresses that are no blocks
static std::vector<B> heap; static long wrong;
static void halloc(int n) { char *p = (char *)sh_sys_alloc(n); CHECK(p, "a general allocation of %d bytes failed", n); for (int i = 0; i < n; i++) if (p[i]) fail("a general allocation of %d bytes is not zero at offset %d", n, i); B b{p, n, G.below(1 << 20)}; fill(b); heap.push_back(b); }
static void hfree() { if (heap.empty() || G.chance(1, 8)) { sh_sys_free(nullptr); return; } size_t i = G.below(heap.size()); verify(heap[i]); sh_sys_free(heap[i].p); heap[i] = heap.back(); heap.pop_back(); }
static void badfree() { if (live.empty()) return; B &b = live[G.below(live.size())]; if (b.n < 400) return; char *p = b.p + 200 + 8 * G.below((b.n - 300) / 8); CHECK(__real_mem_pool_free(p) != 0, "freeing an address inside a block of %d bytes was accepted", b.n); verify(b); wrong++; }
void prop_setup() { sim_clock_active(true); POOL.real = true; if (sh_pool_init() != 0) fail("mem_pool_init failed"); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(400000000); int ops = 1 + G.below(150); size_t peak = 0; bool bulk = G.chance(1, 6); int fs = 0;
    for (int k = 0; k < ops; k++) {
        switch (G.weighted({12, 8, bulk ? 2 : 0, bulk ? 2 : 0, 1, 1, 1})) {
        case 0: alloc(gsize()); break;
        case 1: if (!live.empty()) release(G.below(live.size())); break;
        case 2: { int c = G.below(fs < 2 ? 6 : 2), n = (512 << c) - (c ? (int)G.below(200) : (int)G.below(500)); if (c > 2) { if (fs >= 2) break; fs++; } int m = G.coin() ? 3000 : 1 + G.below(1500); while (m-- && alloc(n)); label("bulk"); break; }
        case 3: { size_t m = G.coin() ? live.size() : G.below(live.size() + 1); while (m-- && !live.empty()) release(live.size() - 1 - (G.below(4) ? 0 : G.below(live.size()))); break; }
        case 4: halloc(G.chance(1, 4) ? 1 + G.below(100000) : 1 + G.below(600)); break;
        case 5: hfree(); break;
        case 6: badfree(); break;
        }
        peak = std::max(peak, live.size());
    }
    for (auto &b : live) verify(b);
    for (auto &b : heap) { verify(b); sh_sys_free(b.p); }
    if (wrong) label("wrong frees", wrong);
    if (peak >= 10 && reuse) nontrivial();
    if (denied) label("exhausted"); label(bulk ? "bulk-history" : "small-history"); label("frees", frees);
    if (want_sample()) sample(strf("%d operations, peak %zu live blocks, %ld frees, %ld refused when exhausted", ops, peak, frees, denied));
}
