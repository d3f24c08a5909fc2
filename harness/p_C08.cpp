// Stalling and slow connections: when the program closes them and when not.
#include "tun.h"
#include <algorithm>

const char *prop_rule = "a case is 1..4 sessions (web over plain and TLS ports, tunnels to addresses and names over the tunnel and the shared port, local clients in the client role); each is either active, with drawn gaps of up to 0.3 s below the stage's limit between the pieces of handshake, header, negotiation, lookup, connect, request, response and relay, or has one end (client, target, tunnel server, resolver) that stalls after a drawn number of bytes, with or without reading on; non-trivial when some end stalled or some gap was longer than half of the limit";
long prop_cases_quick = 14000, prop_cases_thorough = 250000; int prop_batch = 60;
static const uint64_t WEB = 4700, TUN = 9700, BOUND = 15200;
static int mode;
struct Sess { int id; bool active; std::string what; SockP near, far; int gaps; uint32_t ip; int port; std::string name; uint64_t resolve = 0; bool unresolved = false; ConnectPlan plan; size_t far_stall = ~(size_t)0; bool far_freeze = false; bool over = false; };
typedef std::shared_ptr<Sess> SessP;
static std::vector<SessP> all; static uint64_t gap(uint64_t max) { uint64_t g = gap_draw(max); if (g > max / 2) { nontrivial(); label("long gap"); } return g; }
static size_t stall_point() { switch (G.below(6)) { case 0: return G.below(3); case 1: return G.below(60); case 2: return G.below(600); case 3: return G.below(1000); case 4: return G.below(5000); default: return ~(size_t)0 - 1; } }

// every connection is closed within the bound after the last thing that happened in its session
static uint64_t group_moved(const SockP &s) {
    uint64_t m = std::max(s->moved, s->open_time);
    for (auto &x : all) if (x->near == s || x->far == s) for (auto &y : {x->near, x->far}) if (y) m = std::max(m, y->moved);
    return m;
}
static Task<> monitor() {
    for (;;) {
        co_await sleep_ms(500);
        for (auto &s : sim_socks()) if (s->open && (s->kind == Sock::STREAM || s->kind == Sock::DGRAM)) { uint64_t m = group_moved(s); if (W.now_ms > m + BOUND) { std::string w; for (auto &x : all) if (x->near == s || x->far == s) w = x->what; fail("%s (%s) is still open %lu ms after the last progress", s->name.c_str(), w.c_str(), (unsigned long)(W.now_ms - m)); } }
    }
}
static void narrow(const SockP &s) { if (s->freeze && G.coin()) s->cap = 1 + G.below(60); }      // an end that stops reading soon blocks the program
static void pace(SockP s, const SessP &x, bool stalls, uint64_t max) { s->gap = max; s->gaps = x->gaps; s->seg = G.one({0, 2, 3}); s->splits = 12; if (stalls) { s->stall = stall_point(); s->freeze = G.coin(); narrow(s); } }
static void stop(const SockP &s) { s->stall = s->dlv; }      // this end does nothing more
static Task<> settle(StreamP s) { SockP d = s->c->s; ConnP c = s->c; for (;;) { s->drain(); if (d->wire.empty() || d->stalled() || !d->open) co_return; co_await until([d, c] { return c->readable() || d->wire.empty() || d->stalled() || !d->open; }); } } // what was written has arrived; reads meanwhile
static Task<StreamP> enter(SessP x, int port, bool tls, bool stalls) {
    SockP d = dial(port); CHECK(d, "nothing listens on port %d", port); x->near = d; pace(d, x, stalls, WEB); d->hold = W.now_ms + gap(WEB); auto c = std::make_shared<Conn>(d);
    if (!tls) co_return std::make_shared<Stream>(c);
    auto t = std::make_shared<TlsStream>(c, tls_client_ctx(), false); bool ok = co_await t->handshake(); if (x->active) CHECK(ok, "%s: TLS handshake failed although no gap was longer than %lu ms", x->what.c_str(), (unsigned long)WEB);
    if (!ok) co_return StreamP(); co_await settle(t); co_return StreamP(t);
}
static Task<bool> slow_read(SessP x, StreamP s, Bytes *got, size_t want, uint64_t max, bool naps) {
    while (got->size() < want) { auto t = std::dynamic_pointer_cast<TlsStream>(s); if (naps && !(t && (SSL_pending(t->ssl) || BIO_ctrl_pending(t->in)))) { SockP d = s->c->s; co_await until([d] { return d->nospace || !d->open; }, 50); if (d->nospace) { label("slow reader"); co_await sleep_ms(gap(max - 50)); } } Bytes b = co_await s->read(1 << 16); if (b.empty()) co_return false; *got += b; }
    co_return true;
}
static Task<> web(SessP x) {
    bool tls = G.coin(); x->what = tls ? "https" : "http"; int n = 1 + G.below(3); bool mute = !x->active && G.chance(1, 3); StreamP s = co_await enter(x, tls ? 443 : 80, tls, !x->active && !mute); x->near->gap = WEB;
    for (int i = 0; s && i < n; i++) {
        Req r; r.keep = i < n - 1 || !x->active; r.path = r.target = G.one({"/a.txt", "/slow.bin", "/slow.bin", "/echo", "/none"}); if (G.chance(1, 3)) { r.method = "POST"; r.path = r.target = "/echo"; r.body = G.blob(G.below(9000)); r.has_len = true; r.hdr = {{"Content-Length", std::to_string(r.body.size())}}; } if (r.keep) r.hdr.push_back({"Connection", "Keep-Alive"});
        if (mute && i == n - 1) { co_await settle(s); x->near->cap = G.one<size_t>({1, 50, 150, 300, 600, 2000, 6000}) + G.below(50); }
        if (!co_await s->write(r.bytes())) { if (x->active) fail("%s: disconnected before request %d", x->what.c_str(), i + 1); break; }
        if (mute && i == n - 1) { co_await settle(s); x->near->freeze = true; label("response not read"); break; }
        Expect e = expect_for(r); auto buf = std::make_shared<Bytes>(); bool ok = true;
        if (e.k == Expect::FILE_ && e.body.size() > 1000) { Bytes got; size_t want = ~0ULL; int naps = G.below(4); for (;;) { size_t h = got.find("\r\n\r\n"); if (h != got.npos) want = h + 4 + e.body.size(); if (got.size() >= want) break; if (!co_await slow_read(x, s, &got, got.size() + 1, WEB, naps > 0)) { ok = false; break; } naps--; } *buf = got; }
        if (ok) { std::string w = co_await answer(s, buf, r); if (x->active) CHECK(w.empty(), "%s request %d: %s", x->what.c_str(), i + 1, w.c_str()); ok = w.empty(); } else if (x->active) fail("%s request %d: disconnected by the program while the response was being read", x->what.c_str(), i + 1);
        if (!ok) break;
        if (i < n - 1) { co_await s->nap(gap(WEB)); }
    }
    if (x->active) s->close(); else { stop(x->near); nontrivial(); label("client stalls"); }
    co_await until([x] { return !x->near->open; }); x->over = true;
}
static Task<> converse(SessP x, StreamP a, StreamP b) {
    int n = 1 + G.below(5); static uint64_t ids = 5000; uint64_t id[2] = {ids++, ids++}; size_t sent[2] = {0, 0}; x->near->gaps = 0; if (x->far) x->far->gaps = 0;
    for (int i = 0; i < n; i++) {
        int d = G.below(2); StreamP f = d ? b : a, t = d ? a : b; bool big = G.chance(1, 4); size_t m = big ? t->c->s->cap + 30000 + G.below(20000) : G.one<size_t>({1, 100, 3000}); if (m > 150000) { m = 100; big = false; }
        uint64_t g = gap(TUN); bool wire = G.chance(1, 3); if (i || G.coin()) { if (wire) { f->c->s->hold = W.now_ms + g; g = 0; } else { co_await sleep_ms(g); } } else g = 0;
        if (!co_await f->write(stream_bytes(id[d], sent[d], m))) { if (x->active) fail("%s: the session was closed after a gap of %lu ms", x->what.c_str(), (unsigned long)g); co_return; }
        Bytes r; if (big) {
            label("blocked relay"); co_await sleep_ms(gap(TUN - (wire ? TUN : 0) + 1));
            if (!wire && G.coin()) { SockP ts = t->c->s; for (int k = G.below(6); k > 0 && r.size() < m; k--) { label("trickling reader"); Bytes q = co_await t->read(m - r.size()); if (q.empty()) break; r += q; if (t->pending() && !ts->nospace) continue; co_await until([ts] { return ts->nospace || !ts->open; }, 50); if (ts->nospace) co_await sleep_ms(gap(TUN - 50)); } }
        }
        r += co_await t->read_exact(m - r.size()); if (r != stream_bytes(id[d], sent[d], m)) { if (x->active) fail("%s: %zu of %zu bytes arrived, the session was closed although no gap was longer than %lu ms", x->what.c_str(), r.size(), m, (unsigned long)TUN); co_return; } sent[d] += m;
    }
}
static Task<> ends(SessP x, StreamP a, StreamP b) {
    if (x->active) { if (a) a->close(); if (b) b->close(); } else { stop(x->near); if (x->far) stop(x->far); nontrivial(); }
    co_await until([x] { return !x->near->open && !(x->far && x->far->open); }); x->over = true;
}
static Task<> tunnel(SessP x) {
    int who = x->active ? -1 : G.below(4); if (who == 2) x->plan.k = ConnectPlan::NEVER; else if (who == 1) { x->far_stall = stall_point(); x->far_freeze = G.coin(); } else x->plan.delay_ms = G.coin() ? 0 : gap(TUN);
    if (G.coin() || who == 3) { x->name = strf("s%d.example", x->id); x->resolve = G.coin() ? 0 : gap(WEB); } if (who == 3) x->unresolved = true; if (who >= 0) { const char *k[] = {"client stalls", "target stalls", "connect stalls", "resolver stalls"}; label(k[who]); }
    int mute = who == 0 && G.coin() ? 1 + G.below(2) : 0; // the client stops reading before the first or the second reply
    int port = mode == 2 ? TUN_PORT : 443; x->what = x->name.empty() ? "tunnel to an address" : "tunnel to a name"; StreamP a = co_await enter(x, port, true, who == 0 && !mute), b; uint64_t hk = hkey(x->ip, x->port);
    if (a) {
        x->near->gap = mode == 3 ? WEB : TUN; Bytes r; auto shut = [&] { x->near->freeze = true; stop(x->near); label("reply not read"); }; bool one = G.coin(); if (mute == 1) { co_await settle(a); x->near->cap = 1 + G.below(20); } bool ok = co_await a->write(auth_header("key") + (one ? socks_greeting() : Bytes())); co_await settle(a); x->near->gap = TUN; if (!one) { co_await a->nap(gap(TUN)); ok = co_await a->write(socks_greeting()); }
        if (mute == 1) { SockP nd = x->near; co_await until([nd] { return nd->nospace || !nd->open; }); shut(); } else r = co_await a->read_exact(2); if (x->active) CHECK(ok && r == Bytes("\5\0", 2), "%s: disconnected during authentication or greeting", x->what.c_str());
        if (r.size() == 2) {
            size_t cap = x->near->cap; SockP nd = x->near; bool late = x->active && G.chance(1, 4); if (late || mute == 2) { co_await settle(a); nd->cap = 1 + G.below(31); }
            co_await a->write(x->name.empty() ? socks_connect4(x->ip, x->port) : socks_connect_name(x->name, x->port)); if (late || mute) co_await until([nd] { return nd->nospace || !nd->open; }); if (mute) shut(); if (late) { label("late reader"); co_await sleep_ms(gap(TUN)); nd->cap = cap; } r = co_await a->read_exact(10); if (x->active) CHECK(r.size() == 10, "%s: disconnected before the reply (lookup took %lu ms, connect %lu ms)", x->what.c_str(), (unsigned long)x->resolve, (unsigned long)x->plan.delay_ms);
            if (r.size() == 10) { b = co_await accept_far(hk, false); co_await converse(x, a, b); }
        }
    }
    co_await ends(x, a, b);
}
static Task<> local(SessP x) {
    int who = x->active ? -1 : G.below(3); if (who == 2) x->plan.k = ConnectPlan::NEVER; else if (who == 1) { x->far_stall = stall_point(); x->far_freeze = G.coin(); } else x->plan.delay_ms = G.coin() ? 0 : gap(TUN); if (who >= 0) { const char *k[] = {"local client stalls", "tunnel server stalls", "connect stalls"}; label(k[who]); }
    x->what = "local client"; StreamP a = co_await enter(x, LOCAL_PORT, false, who == 0), b; a->c->put("x");
    co_await until([x] { return (x->far && (x->far->cs == Sock::CONNECTED || !x->far->open)) || !x->near->open; });
    if (x->far && x->far->cs == Sock::CONNECTED) { b = co_await accept_far(hkey(x->ip, x->port), true); if (x->active) CHECK(b, "%s: the program gave up the TLS handshake although no gap was longer than %lu ms", x->what.c_str(), (unsigned long)WEB); if (b) { Bytes h = co_await b->read_exact(37); if (x->active) CHECK(h.size() == 37, "%s: the tunnel server got no header", x->what.c_str()); if (h.size() == 37) co_await converse(x, a, b); } }
    co_await ends(x, a, b);
}
static Task<> run() {
    spawn(monitor(), true); int n = 1 + G.below(4); bool used = false; uint32_t ip = 0x0a010000;
    for (int i = 0; i < n; i++) {
        auto x = std::make_shared<Sess>(); x->id = i; x->active = G.coin(); x->gaps = G.one({0, 2, 6}); x->ip = ip + i; x->port = 2000 + i; all.push_back(x); if (i && G.coin()) co_await sleep_ms(G.below(6000));
        bool w = G.chance(1, 3) || (mode == 1 && used);
        if (!w && mode == 1) { used = true; x->ip = TUN_IP; x->port = TUN_SERV_PORT; spawn(local(x)); } else if (!w) spawn(tunnel(x)); else spawn(web(x));
        if (want_sample()) sample(strf("mode %d: %s, %s", mode, w ? "web" : mode == 1 ? "local client" : "tunnel", x->active ? "active" : "stalls"));
    }
    co_await until([n] { if ((int)all.size() < n) return false; for (auto &x : all) if (!x->over) return false; for (auto &s : sim_socks()) if (s->kind == Sock::STREAM || s->kind == Sock::DGRAM) return false; return true; });
}
void prop_case() {
    sim_profile(); W.creep = 0; all.clear(); if (W.cap_lo < 600) { W.cap_lo = 600; W.cap_hi = std::max<size_t>(W.cap_hi, 600); }
    W.on_connect = [](SockP s) { for (auto &x : all) if (x->ip == dst_ip(s) && x->port == dst_port(s)) { x->far = s; return x->plan; } fail("the program connects to %s:%d, which nobody asked for", ipstr(dst_ip(s)).c_str(), dst_port(s)); };
    W.on_established = [](SockP s) { for (auto &x : all) if (x->far == s) { pace(s, x, false, WEB); s->stall = x->far_stall; s->freeze = x->far_freeze; narrow(s); if (x->gaps && !x->active) s->hold = W.now_ms + gap(WEB); } far_arrived(s); };
    W.on_dgram = [](SockP s, Bytes b) { DnsQ q = dns_parse_query(b); CHECK(q.ok, "malformed query"); for (auto &x : all) if (x->name == q.name && !x->unresolved) spawn([](SockP s, Bytes r, uint64_t d) -> Task<> { if (d) co_await sleep_ms(d); dns_send(s, r); }(s, dns_a_reply(q, x->ip, 1), x->resolve), true); };
    spawn(run());
}
void prop_setup() { mode = 1 + G.below(3); peers_init(); site_build(); site_add("/slow.bin", site_content("slow", 70000)); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
