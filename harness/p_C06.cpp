// Hostile input on every surface; afterwards every service still works.
#include "mix.h"

const char *prop_rule = "a case is 1..6 misbehaving connections, one after the other or at once, on drawn ports (raw or TLS; mutated, truncated and oversized requests, headers, SOCKS messages, TLS records), with misbehaving targets, tunnel servers and resolver, drawn segmentation and abort points, followed by one well-behaved use of every port; non-trivial when the program read at least one byte of the misbehaving connections";
long prop_cases_quick = 8000, prop_cases_thorough = 150000; int prop_batch = 60; bool prop_guided = true;
static int mode;
static Task<> one(int *left) { auto h = std::make_shared<std::string>(); co_await hostile(h); label(h->substr(h->rfind(' ') + 1)); if (want_sample()) sample(strf("mode %d ", mode) + *h); (*left)--; }
static Task<> run() {
    auto left = std::make_shared<int>(1 + G.below(6)); int n = *left; bool seq = G.coin();
    for (int i = 0; i < n; i++) { spawn(one(left.get())); if (seq) co_await until([left, n, i] { return *left <= n - i - 1; }); else if (G.coin()) co_await sleep_ms(G.below(500)); }
    if (G.chance(3, 4)) co_await until([left] { return *left == 0; }); nontrivial();
    MX.far_after_header = true; if (mode == 1) co_await sleep_ms(11000); // connections dialled before may still be refused
    std::string w = co_await probe(); CHECK(w.empty(), "after misbehaving connections, a well-behaved one was not served: %s", w.c_str()); co_await until([left] { return *left == 0; });
}
void prop_case() { sim_profile(); mix_install(mode); spawn(run()); }
void prop_setup() { mode = 1 + G.below(3); if (G.chance(1, 8)) use_rsa(); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
