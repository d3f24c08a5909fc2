// SOCKS5 negotiation: greeting, request, dialling and the reply.
#include "tun.h"

const char *prop_rule = "a case is 1..3 concurrent tunnel clients, each with a greeting (1..255 methods, or malformed), a request (IPv4 or name; or another version, command, address type, an empty or impossible name), drawn fragmentation, a connect outcome (accepted after 0..7 s or at once, refused, unreachable, never answered) and possibly an abort at a drawn point; non-trivial when a request was complete and well-formed with an outcome, or was malformed and complete";
long prop_cases_quick = 10000, prop_cases_thorough = 150000; int prop_batch = 100;
static int mode; static std::map<std::string, std::pair<uint32_t, uint64_t>> names; static int abort_n;

static Task<bool> cutw(StreamP s, Bytes b, size_t stop) { // false: stopped early or peer gone
    size_t o = 0, end = std::min(stop, b.size()); int style = G.below(3);
    while (o < end) { size_t n = style == 0 ? end : style == 1 ? 1 : 1 + G.below(20); n = std::min(n, end - o); if (!co_await s->write(b.substr(o, n))) co_return false; o += n; s->drain(); if (G.chance(1, 30)) co_await s->nap(G.below(800)); }
    co_return end == b.size();
}
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static Task<> reply_later(SockP s, Bytes r, uint64_t ms) { if (ms) co_await sleep_ms(ms); dns_send(s, r); }
struct Ses { int idx; Host *h = nullptr; uint64_t key = 0; StreamP a; size_t tx0 = 0; bool up = false, expect_dial = false; };

static Task<> client(int idx) {
    Bytes greet, req; bool g_ok = true, r_ok = true; std::string what; uint32_t ip = 0x0a000000 + (uint32_t)(idx << 16) + (uint32_t)G.below(65536); if (G.chance(1, 3)) ip = (uint32_t)G.one<uint64_t>({0x01020300, 0xfffefd00, 0x7f000000, 0x80000000}) + idx; if (idx == 1 && G.chance(1, 25)) ip = G.coin() ? 0 : 0xffffffffu; int port = G.one<int>({80, 443, 1, 65535, 256, 255, 0x3500}); if (G.chance(1, 3)) port = 1 + G.below(65535);
    if (G.chance(1, 10)) { g_ok = false; switch (G.below(3)) { case 0: greet = Bytes("\5\0", 2) + G.rbytes(G.below(300)); what = "no methods"; break; case 1: greet = socks_greeting(Bytes(1 + G.below(3), 0)); greet[0] = (char)G.one({4, 6, 0, 1, 0x47, 0x85}); what = "greeting of another version"; break; default: greet = Bytes("\5\0", 2); what = "no methods, nothing more"; } }
    else { size_t m = G.one<size_t>({1, 2, 3, 254, 255, 0}); if (!m) m = 1 + G.below(255); greet = socks_greeting(Bytes(1, 0) + (m > 1 ? G.blob(m - 1) : Bytes())); }
    bool name = false; std::string nm; bool bad_name = false;
    if (G.chance(2, 5)) { name = true; if (G.chance(1, 5)) { nm = gen_bad_name(); bad_name = true; } else { nm = gen_name(); if (names.count(lower(nm))) nm = strf("x%d.test", idx); } req = socks_connect_name(nm + (!bad_name && G.chance(1, 12) ? "." : ""), port); if (!bad_name) names[lower(nm)] = {ip, G.chance(1, 3) ? G.below(2000) : 0}; }
    else req = socks_connect4(ip, port);
    if (g_ok && G.chance(1, 6)) { r_ok = false; switch (G.below(5)) { case 0: req[0] = (char)G.one({4, 0, 6, 0x85}); what = "version"; break; case 1: req[1] = (char)G.one({2, 3, 0, 4, 0x81, 255}); what = "command"; break; case 2: req = Bytes("\5\1\0\4", 4) + G.blob(16) + be16(port); what = "IPv6"; break; case 3: req[3] = (char)G.one({0, 2, 5, 255, 0x83}); what = "address type"; break; default: req = Bytes("\5\1\0\3\0", 5) + be16(port) + (G.coin() ? Bytes() : G.blob(G.below(300))); what = "empty name"; } if (name && what != "empty name" && !bad_name) names.erase(lower(nm)); name = false; }
    auto S = std::make_shared<Ses>(); S->idx = idx; S->key = hkey(ip, port); bool valid = g_ok && r_ok && !bad_name; ConnectPlan pl; std::string out = "accept";
    if (valid) {
        switch (G.below(8)) { case 0: pl.k = ConnectPlan::REFUSE; out = "refuse"; break; case 1: pl.k = ConnectPlan::REFUSE; pl.err = G.one({113, 101, 110}); out = "unreachable"; break; case 2: pl.k = ConnectPlan::NEVER; out = "never"; break; case 3: pl.immediate = true; out = "at once"; break; case 4: pl.k = ConnectPlan::REFUSE; pl.immediate = true; pl.err = G.one({101, 111, 13}); out = "error at once"; break; default: pl.delay_ms = G.one<int>({0, 0, 300, 7000}); }
        if (pl.k == ConnectPlan::REFUSE && !pl.immediate) pl.delay_ms = G.one<int>({0, 0, 2000});
        Host h; h.plan = pl; h.up = [S](SockP k) { CHECK(S->a->c->s->tx_total == S->tx0, "%zu bytes were sent to the client between its request and the connection being established", S->a->c->s->tx_total - S->tx0); S->up = true; (void)k; };
        hosts[S->key] = h;
    }
    size_t stop = ~(size_t)0; int how = 0, stage = 0; if (G.chance(1, 6)) { stage = G.below(4); how = G.below(3); stop = stage == 0 ? G.below(greet.size() + 1) : stage == 1 ? G.below(req.size() + 1) : 0; abort_n++; }
    bool ab = stop != ~(size_t)0; label(ab ? strf("abort%d", stage) : valid ? "outcome " + out : g_ok && r_ok ? "bad name" : "malformed"); if (valid && !ab) label(name ? "name" : "ipv4");
    if (want_sample()) sample(strf("client %d: greeting of %zu bytes, %s request to %s%s:%d, outcome %s%s", idx, greet.size(), what.empty() ? "proper" : what.c_str(), name ? quoted(nm, 40).c_str() : ipstr(ip).c_str(), bad_name ? " (impossible name)" : "", port, out.c_str(), ab ? strf(", abort at stage %d", stage).c_str() : ""));
    StreamP s = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); CHECK(s, "TLS handshake failed"); S->a = s; co_await s->write(auth_header("key"));
    auto drop = [&] { if (how == 0) s->close(); else if (how == 1) s->reset(); else s->c->fin(); };
    bool all = co_await cutw(s, greet, ab && stage == 0 ? stop : ~(size_t)0);
    if (ab && stage == 0) { drop(); co_return; }
    Bytes r = co_await s->read_exact(2); (void)all;
    if (!g_ok) { CHECK(s->eof, "still connected"); CHECK(r.size() < 2, "a malformed greeting (%s) is answered with %s", what.c_str(), hex(r).c_str()); nontrivial(); s->close(); co_return; }
    CHECK(r == Bytes("\5\0", 2), "greeting answered with %s", r.empty() ? "nothing" : hex(r).c_str());
    S->tx0 = s->c->s->tx_total;
    all = co_await cutw(s, req, ab && stage == 1 ? stop : ~(size_t)0);
    if (ab && stage >= 1) { if (stage == 2) co_await until([S] { return hosts.count(S->key) && hosts[S->key].dials; }, 300); if (stage == 3) co_await sleep_ms(G.below(3000)); drop(); co_return; }
    nontrivial();
    r = co_await s->read_exact(10);
    bool good = valid && pl.k == ConnectPlan::ACCEPT;
    if (good) {
        CHECK(r.size() == 10 && !r.compare(0, 4, Bytes("\5\0\0\1", 4)), "a request whose connection is accepted (%s) is answered with %s", out.c_str(), r.empty() ? "nothing" : hex(r).c_str());
        CHECK(S->up, "success was reported before the connection was established"); CHECK(hosts[S->key].dials == 1, "%d connections were made for one request", hosts[S->key].dials);
        co_await s->write("ping"); Bytes x = co_await s->read(10, 1500); CHECK(x.empty() && s->timedout, "unexpected bytes or close after the success reply: %s", hex(x).c_str());
    } else {
        CHECK(r.empty(), "a request that %s is answered with %s", valid ? "cannot be connected" : g_ok && r_ok ? "names an impossible host" : strf("is malformed (%s)", what.c_str()).c_str(), hex(r).c_str()); CHECK(s->eof, "still connected");
        if (valid) CHECK(hosts[S->key].dials == 1, "%d connections were tried for one request", hosts[S->key].dials);
    }
    s->close();
}
void prop_case() {
    sim_profile(); hosts_install();
    W.on_dgram = [](SockP s, Bytes b) {
        DnsQ q = dns_parse_query(b); auto it = q.ok ? names.find(lower(q.name)) : names.end();
        if (it == names.end()) { if (q.ok && q.name.size() <= 253) { spawn(reply_later(s, dns_a_reply(q, 0x42424242, 60), 0), true); return; } spawn(reply_later(s, dns_header(q.id, 0x8183, 1, 0, 0, 0) + q.question, 0), true); return; }
        spawn(reply_later(s, dns_a_reply(q, it->second.first, 60), it->second.second), true);
    };
    for (int i = 1 + G.below(3); i > 0; i--) spawn(client(i));
}
void prop_setup() { mode = 2 + G.below(2); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
