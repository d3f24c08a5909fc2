// Well-behaved connections among misbehaving ones see what they would see alone.
#include "mix.h"
#include <cerrno>
#include <cstring>

const char *prop_rule = "a case is 1..5 well-behaved connections (keep-alive web requests judged by the web model, relays to addresses and names judged by the relay model, local clients in the client role) among 0..7 misbehaving ones that start, stall, abort, reset, fail to connect, are aborted before they are accepted or are denied memory, sometimes with accepts that fail for a while for lack of descriptors or memory, with drawn order, batching and segmentation; in one case of 120 relays that have been set up go on while 200..1100 more connections arrive; non-trivial when at least two connections were open at once";
long prop_cases_quick = 7000, prop_cases_thorough = 120000; int prop_batch = 60;
static int mode; static int open_now, most;
static Task<> bad() { auto h = std::make_shared<std::string>(); open_now++; most = std::max(most, open_now); co_await hostile(h); open_now--; label(h->substr(h->rfind(' ') + 1)); }
static Task<> web() {
    bool tls = G.coin(); int n = 1 + G.below(4); label("web"); open_now++; most = std::max(most, open_now);
    StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake of a well-behaved web client failed"); auto buf = std::make_shared<Bytes>();
    for (int i = 0; i < n; i++) {
        bool keep = i < n - 1; Req r; r.keep = keep; r.path = r.target = G.one({"/a.txt", "/f3.png", "/echo", "/f13.ts", "/f9.txt", "/none", "/index.html"}); if (G.chance(1, 3)) { r.method = "POST"; r.path = r.target = "/echo"; r.body = G.blob(G.below(9000)); r.has_len = true; r.hdr = {{"Content-Length", " " + std::to_string(r.body.size())}}; }
        if (keep) r.hdr.push_back({"Connection", " Keep-Alive"}); Bytes b = r.bytes(); size_t k = G.coin() ? b.size() : 1 + G.below(b.size()); CHECK(co_await s->write(b.substr(0, k)), "a well-behaved web client was disconnected"); if (k < b.size()) { co_await s->nap(G.below(1500)); co_await s->write(b.substr(k)); }
        std::string w = co_await answer(s, buf, r); CHECK(w.empty(), "well-behaved web client (%s): %s", s->c->s->name.c_str(), w.c_str());
    }
    Bytes x = co_await s->read(10); CHECK(x.empty() && buf->empty(), "bytes after the response"); s->close(); open_now--;
}
static Task<> tunnel(int id) {
    open_now++; most = std::max(most, open_now); PairP p; uint32_t ip = 0x0a0a0000 + id; RelayOpt o; o.max_total = G.one({300, 20000, 60000}); const char *k = "local client";
    if (mode == 1) p = co_await open_local(id); else { int port = mode == 2 ? TUN_PORT : 443; if (G.coin()) { p = co_await open_pair(mode, port, "key", ip, 1000 + id); k = "tunnel to an address"; } else { p = co_await open_named(port, "key", strf("n%d.good.example", id), ip, 1000 + id); k = "tunnel to a name"; } }
    label(k); CHECK(p->err.empty(), "%s: %s", k, p->err.c_str()); std::string b; std::string w = co_await relay(p, mode, o, &b); CHECK(w.empty(), "%s: %s (%s)", k, w.c_str(), b.c_str()); p->a->close(); p->b->close(); open_now--;
}
static Task<> run() {
    int ng = 1 + G.below(5), nb = G.below(8), id = 1 + G.below(1000); int burst = G.below(3); if (want_sample()) sample(strf("mode %d: %d well-behaved, %d misbehaving, %s", mode, ng, nb, burst == 0 ? "at once" : "spread"));
    while (ng || nb) { bool g = (int)G.below(ng + nb) < ng; if (g) { ng--; if (G.chance(1, 3)) spawn(web()); else spawn(tunnel(id++)); } else { nb--; spawn(bad()); } if (burst && G.coin()) co_await sleep_ms(G.below(burst == 1 ? 50 : 3000)); }
    co_await until([] { return actors_alive() <= 1; }); if (most > 1) nontrivial();
}
// Relays that have been set up go on while more connections arrive than the worker has room for.
static Task<> carry(PairP p, int *left) { RelayOpt o; o.max_total = G.one({300, 20000, 60000}); std::string b, w = co_await relay(p, mode, o, &b); CHECK(w.empty(), "a relay that was set up before a crowd arrived: %s (%s)", w.c_str(), b.c_str()); p->a->close(); p->b->close(); (*left)--; }
static Task<> crowded() {
    int k = 1 + G.below(4), n = G.one({200, 700, 1100}), id = 1 + G.below(1000); auto left = std::make_shared<int>(k); std::vector<PairP> ps; std::vector<ConnP> c; label(strf("crowd of %d", n)); nontrivial(); if (want_sample()) sample(strf("mode %d: %d relays, then %d connections", mode, k, n)); W.creep = 0;
    for (int i = 0; i < k; i++) { PairP p = mode == 1 ? co_await open_local(id) : co_await open_pair(mode, mode == 2 ? TUN_PORT : 443, "key", 0x0a0a0000 + id, 1000 + id); id++; CHECK(p->err.empty(), "%s", p->err.c_str()); ps.push_back(p); }
    size_t started = 0; auto ports = mix_ports(); for (int i = 0; i < n; i++) { SockP d = dial(G.chance(1, 4) ? ports[G.below(ports.size())].first : 80); CHECK(d, "nothing listens"); d->bad = true; c.push_back(std::make_shared<Conn>(d)); if (G.coin()) c.back()->put("GET /a.txt HT"); if (started < ps.size() && G.chance(1, n / 8)) { spawn(carry(ps[started++], left.get())); } if (G.chance(1, 200)) co_await sleep_ms(G.below(50)); }
    while (started < ps.size()) spawn(carry(ps[started++], left.get())); co_await until([=] { return *left == 0; }); for (auto &x : c) x->close();
    if (G.coin()) co_await sleep_ms(6000); 
}
void prop_case() {
    sim_profile(); mix_install(mode); MX.far_after_header = mode == 1; if (W.cap_hi < 1000) W.cap_lo = W.cap_hi = 3000;
    if (G.chance(1, 120)) { W.preempt = 0; spawn(crowded()); return; }
    if (G.chance(1, 3)) { int room = G.one({1, 3, 100}), short_of = G.coin() ? 0 : G.one({EMFILE, ENFILE, ENOBUFS, ENOMEM}); W.fault = [room, short_of](const char *op) mutable { if (strcmp(op, "accept") || room <= 0 || !G.chance(1, 4)) return 0; room--; if (short_of && G.coin()) { label("short of descriptors"); return short_of; } label("aborted before accept"); return G.one({ECONNABORTED, EPROTO, EINTR}); }; }
    if (G.chance(1, 2)) { int rate = G.one({4, 20}); W.on_touch = [rate](Sock *s) { POOL.fail_after = -1; if (s && s->bad && G.chance(1, rate)) { POOL.allocs = 0; POOL.fail_after = 0; POOL.denied = 1; label("memory denied"); } }; }
    spawn(run());
}
void prop_setup() { mode = 1 + G.below(3); if (G.chance(1, 8)) use_rsa(); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
