// Relay of both byte streams of one tunnel session.
#include "tun.h"

const char *prop_rule = "a case is one tunnel session (program as client or as server) that relays two generated byte streams of 0..200000 bytes with drawn message sizes, pauses, window and send-buffer sizes, read sizes, segmentation and event order, in lockstep or at once, and is closed by either end before or after it received everything; non-trivial when at least one direction carried more bytes than the other side's send buffer or the relay buffer took at once, or the session ran in lockstep";
long prop_cases_quick = 15000, prop_cases_thorough = 200000; int prop_batch = 100;
static int role;
static Task<> session() {
    PairP p = co_await open_pair(role); CHECK(p->err.empty(), "%s", p->err.c_str()); label(role == 1 ? "client" : "server");
    std::string b; std::string w = co_await relay(p, role, {}, &b);
    if (want_sample()) sample(strf("%s role, %s, send buffers %zu/%zu, segmentation %d", role == 1 ? "client" : "server", b.c_str(), p->a->c->s->cap, p->b->c->s->cap, W.seg));
    CHECK(w.empty(), "%s", w.c_str());
    if (b.find("lockstep") != b.npos) { nontrivial(); label("lockstep"); } else if (p->a->total_out > std::min<size_t>(12288, p->b->c->s->cap) || p->b->total_out > std::min<size_t>(12288, p->a->c->s->cap)) { nontrivial(); label("exceeds-buffers"); }
    if (b.find("after sending") != b.npos) label("early-close");
}
void prop_case() { sim_profile(); hosts_install(); spawn(session()); }
void prop_setup() { role = 1 + G.below(2); if (G.chance(1, 8)) use_rsa(); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(role).json()); }
