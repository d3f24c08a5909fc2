// After any history of connections, everything they used has been given back.
#include "mix.h"
#include <cerrno>

const char *prop_rule = "a case is 1..10 connections of drawn kinds and endings (well-behaved uses of every service and misbehaving peers), one after the other or at once, with denied pool blocks, descriptors and failing calls at drawn points; 75 s after the last peer is gone the usage of sockets, files, pool blocks, heap blocks and TLS sessions is compared with the idle worker's, then all services are used once more and the usage is compared again; one case in 60 is a crowd of 150..1300 plain connections at once, more than the worker has room for, each answered whole or closed; one in 150 resolves up to 1500 names with long life times, each of which must be served; one in 250 keeps 40..420 relays open at once, each of which carries exactly its own bytes or ends; non-trivial when a call or allocation was denied or at least two connections took place";
long prop_cases_quick = 6000, prop_cases_thorough = 120000; int prop_batch = 60;
static int mode; static int injected; static bool faults;
static Task<> one(int *left) { auto h = std::make_shared<std::string>(); co_await hostile(h); label(h->substr(h->rfind(' ') + 1)); if (want_sample()) sample(strf("mode %d ", mode) + *h); (*left)--; }
static Task<> polite(int *left) { std::string w = co_await probe(); if (!faults && mode != 1) CHECK(w.empty(), "a well-behaved use was not served: %s", w.c_str()); (*left)--; }
static Task<> run() {
    Usage base = usage_now(); MX.ttl_max = 20; long denied0 = POOL.denied;
    int n = 1 + G.below(10); bool seq = G.coin(); auto left = std::make_shared<int>(n); std::string what = "none";
    int fk = G.below(5); int rate = G.one({3, 10, 40}); int room = G.one({1, 2, 5, 1000}); std::string op = G.one({"epoll_ctl", "socket", "accept", "connect", "send", "recv", "sendto", "setsockopt", "fcntl", "open", "SSL_new", "any"});
    if (fk >= 3) { faults = true; what = op; W.fault = [=](const char *o) mutable { if (!faults || injected >= room || (op != "any" && op != o) || !G.chance(1, rate)) return 0; injected++; std::string s = o; note("fault in %s", o); return s == "accept" ? G.one({EMFILE, ENFILE, ECONNABORTED, EPROTO, ENOMEM}) : s == "send" ? G.one({ECONNRESET, EPIPE, ENOBUFS}) : s == "recv" ? G.one({ECONNRESET, ETIMEDOUT, ENOMEM}) : s == "epoll_ctl" ? G.one({ENOMEM, ENOSPC}) : s == "connect" ? G.one({ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED}) : s == "sendto" ? G.one({ENETUNREACH, EPERM, ENOBUFS}) : EMFILE; }; }
    if (fk == 2 || fk == 4) { faults = true; what += " pool"; POOL.allocs = 0; POOL.fail_after = G.below(G.one({10, 60, 200})); POOL.denied = G.one({1, 2, 10, 100000}); }
    label("denied: " + what);
    for (int i = 0; i < n; i++) { if (!faults && G.chance(1, 4)) spawn(polite(left.get())); else spawn(one(left.get())); if (seq) co_await until([=] { return *left <= n - i - 1; }); else if (G.coin()) co_await sleep_ms(G.below(2000)); }
    co_await until([left] { return *left == 0; }); if (n > 1 || injected || (POOL.fail_after >= 0 && POOL.allocs > POOL.fail_after)) nontrivial();
    faults = false; POOL.fail_after = -1; POOL.denied = denied0; MX.far_after_header = true;
    co_await until([] { return actors_alive() == 1; }); co_await sleep_ms(75000);
    std::string d = usage_diff(base, usage_now()); CHECK(d.empty(), "after %d connections (denied: %s) and 75 s of idling: %s", n, what.c_str(), d.c_str());
    std::string w = co_await probe(); CHECK(w.empty(), "after %d connections, a well-behaved use was not served: %s", n, w.c_str());
    co_await sleep_ms(75000); d = usage_diff(base, usage_now()); CHECK(d.empty(), "after a well-behaved use of every service and 75 s of idling: %s", d.c_str());
}
// Hundreds of plain connections at once, up to and beyond what the pool can hold.
static Task<> crowd() {
    Usage base = usage_now(); W.creep = 0; int n = G.one({150, 400, 700, 1000, 1300}); std::vector<ConnP> c(n); std::vector<int> k(n); std::vector<Bytes> got(n); auto ports = mix_ports(); int silent = G.below(4);
    Bytes req = "GET /a.txt HTTP/1.1\r\n", end = "\r\n"; Req r; r.path = r.target = "/a.txt"; Bytes body = expect_for(r).body; int refused = 0;
    auto take = [&] { for (int i = 0; i < n; i++) if (c[i] && c[i]->readable()) got[i] += c[i]->take(1 << 20); };
    for (int i = 0; i < n; i++) {
        k[i] = (int)G.below(4) < silent ? G.below(2) : 2 + G.below(3); int port = k[i] == 0 ? ports[G.below(ports.size())].first : 80; SockP d = dial(port); CHECK(d, "nothing listens on %d", port); c[i] = std::make_shared<Conn>(d);
        if (k[i] == 1) c[i]->put((req + end).substr(0, 1 + G.below(req.size()))); if (k[i] == 2) c[i]->put(req + "Connection: Keep-Alive\r\n" + end); if (k[i] == 3) c[i]->put(req + end); if (k[i] == 4) { c[i]->put(req + end); c[i]->fin(); }
        if (G.chance(1, 100)) { co_await sleep_ms(G.below(30)); take(); }
    }
    label(strf("crowd of %d", n)); if (want_sample()) sample(strf("crowd of %d connections", n)); nontrivial();
    for (int t = 0; t < 40; t++) { co_await sleep_ms(500); take(); }
    for (int i = 0; i < n; i++) {
        CHECK(c[i]->eof(), "connection %d of %d (%s) is still open after 20 s", i + 1, n, k[i] == 0 ? "silent" : k[i] == 1 ? "unfinished request" : "request"); if (k[i] < 2) { CHECK(got[i].empty(), "connection %d of %d was sent %s without a request", i + 1, n, quoted(got[i], 40).c_str()); continue; }
        if (k[i] == 4) continue; // a half-closed client may be dropped
        bool whole = !got[i].compare(0, 15, "HTTP/1.1 200 OK") && got[i].size() > body.size() && !got[i].compare(got[i].size() - body.size(), body.size(), body); if (whole) continue;
        refused++; CHECK(n > 400 && got[i].empty(), "request %d of %d at once was answered %s", i + 1, n, got[i].empty() ? "with nothing" : quoted(got[i], 60).c_str());
    }
    if (refused) label("crowd: refused"); for (auto &x : c) x->close(); MX.far_after_header = true; co_await until([] { return actors_alive() == 1; }); co_await sleep_ms(75000);
    std::string d = usage_diff(base, usage_now()); CHECK(d.empty(), "after %d connections at once and 75 s of idling: %s", n, d.c_str());
    std::string w = co_await probe(); CHECK(w.empty(), "after %d connections at once, a well-behaved use was not served: %s", n, w.c_str());
}
// Many names, all resolved with long life times: the worker remembers what it likes of them, but goes on serving.
static Task<> ask(int i, int ttl, int *left) {
    StreamP t = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); CHECK(t, "TLS handshake failed with %d names resolved", i); co_await t->write(auth_header("key")); co_await t->write(socks_greeting()); Bytes r = co_await t->read_exact(2);
    CHECK(r == Bytes("\5\0", 2), "greeting refused with %d names resolved", i); co_await t->write(socks_connect_name(strf("n%d.test", i), 80)); r = co_await t->read_exact(10); CHECK(r.size() == 10, "connecting by a name failed with %d names resolved before", i); t->close(); (*left)--; (void)ttl;
}
static Task<> names() {
    Usage base = usage_now(); W.creep = 0; int n = G.one({100, 300, 700, 900, 1500}), ttl = G.one({60, 600, 10800}), par = 1 + G.below(4); auto left = std::make_shared<int>(0); label(strf("%d names", n)); nontrivial(); if (want_sample()) sample(strf("%d names with a TTL of %d s, %d at once", n, ttl, par));
    W.on_dgram = [=](SockP s, Bytes b) { DnsQ q = dns_parse_query(b); CHECK(q.ok, "malformed query"); dns_send(s, dns_a_reply(q, 0x05060709, ttl)); }; W.eintr = 0; W.on_connect = [](SockP) { return ConnectPlan(); }; W.on_established = [](SockP) {};
    for (int i = 0; i < n; i++) { ++*left; spawn(ask(i, ttl, left.get())); co_await until([=] { return *left < par; }); if (G.chance(1, 100)) co_await sleep_ms(G.below(3000)); }
    co_await until([=] { return *left == 0; }); co_await sleep_ms(75000 + ttl * 1000); std::string d = usage_diff(base, usage_now()); CHECK(d.empty(), "after %d names, their time to live and 75 s of idling: %s", n, d.c_str());
}
// Hundreds of relays at once, up to and beyond what the worker has room for: each carries exactly what is sent or ends.
struct Swarm { int n, trying, left, served = 0, cut = 0; bool must; };
static Task<> echo(SockP s) {
    StreamP t; auto c = std::make_shared<Conn>(s); if (mode == 1) { auto x = std::make_shared<TlsStream>(c, tls_server_ctx(), true); if (!co_await x->handshake(60000)) { c->close(); co_return; } t = x; Bytes h = co_await t->read_exact(36, 60000); if (h.size() < 36) { t->close(); co_return; } CHECK(h == auth_header("key"), "wrong header %s", hex(h).c_str()); } else t = std::make_shared<Stream>(c);
    for (;;) { Bytes b = co_await t->read(1 << 14, 120000); if (b.empty() || !co_await t->write(b)) break; } t->close();
}
static Task<> member(int i, std::shared_ptr<Swarm> w, size_t len) {
    StreamP t; bool up = false; auto lost = [&](const char *at) { w->cut++; CHECK(!w->must, "%d relays at once: number %d was cut off %s", w->n, i + 1, at); if (t) CHECK(!t->timedout, "%d relays at once: number %d neither goes on nor ends %s", w->n, i + 1, at); };
    if (mode == 1) { SockP d = dial(LOCAL_PORT); CHECK(d, "nothing listens"); t = std::make_shared<Stream>(std::make_shared<Conn>(d)); up = true; }
    else { t = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); if (!t) lost("in the handshake"); else { co_await t->write(auth_header("key")); co_await t->write(socks_greeting()); Bytes r = co_await t->read_exact(2, 60000); if (r.size() < 2) lost("before the greeting was answered"); else { CHECK(r == Bytes("\5\0", 2), "greeting answered with %s", hex(r).c_str()); co_await t->write(socks_connect4(0x05060709, 80)); r = co_await t->read_exact(10, 60000); if (r.size() < 10) lost("before the connection was reported"); else up = r[1] == 0; if (!up) lost("by an error reply"); } } }
    size_t at = 0; for (int m = 0; up && m < 2; m++) {
        Bytes b = stream_bytes(i, at, len); at += len; co_await t->write(b); Bytes r = co_await t->read_exact(len, 60000); CHECK(b.compare(0, r.size(), r) == 0, "%d relays at once: number %d got bytes that are not its own", w->n, i + 1); if (r.size() < len) { up = false; lost(m ? "after it had been carrying" : "before it carried anything"); }
        else if (!m) w->served++; if (!m) { w->trying--; co_await until([w] { return w->trying == 0; }); }
    }
    if (!up && w->trying && at == 0) w->trying--; if (t) { if (G.chance(1, 4)) t->reset(); else t->close(); } w->left--;
}
static Task<> swarm() {
    Usage base = usage_now(); W.creep = 0; W.eintr = 0; auto w = std::make_shared<Swarm>(); w->n = w->trying = w->left = G.one({40, 100, 200, 380, 420}); w->must = w->n <= 100; size_t len = G.one({1, 300, 5000}); label(strf("%d relays", w->n)); nontrivial(); if (want_sample()) sample(strf("mode %d: %d relays at once", mode, w->n));
    W.on_connect = [](SockP) { return ConnectPlan(); }; W.on_established = [](SockP s) { spawn(echo(s)); };
    for (int i = 0; i < w->n; i++) { spawn(member(i, w, len)); if (G.chance(1, 10)) co_await until([w, i] { return w->served + w->cut >= i; }); }
    co_await until([w] { return w->left == 0; }); label("relays served", w->served); label("relays cut", w->cut); co_await until([] { return actors_alive() == 1; }); co_await sleep_ms(75000);
    std::string d = usage_diff(base, usage_now()); CHECK(d.empty(), "after %d relays at once and 75 s of idling: %s", w->n, d.c_str()); mix_install(mode); MX.far_after_header = true; std::string x = co_await probe(); CHECK(x.empty(), "after %d relays at once, a well-behaved use was not served: %s", w->n, x.c_str());
}
void prop_case() { sim_profile(); mix_install(mode); if (G.chance(1, 60)) { W.preempt = 0; W.cap_lo = W.cap_hi = 1 << 20; spawn(crowd()); } else if (mode != 1 && G.chance(1, 150)) { W.preempt = 0; W.seg = 0; W.cap_lo = W.cap_hi = 1 << 20; spawn(names()); } else if (G.chance(1, 250)) { W.preempt = 0; W.seg = 0; W.cap_lo = W.cap_hi = 1 << 20; spawn(swarm()); } else spawn(run()); }
void prop_setup() { mode = 1 + G.below(3); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
