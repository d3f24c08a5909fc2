// Shared port: tunnels and web pages behind one TLS listener.
#include "tun.h"
#include <cstring>

const char *prop_rule = "a case is one TLS connection to the shared port whose first bytes are a tunnel header (right, wrong or cut key), a sequence of 1..4 web requests, or other bytes including near-magic prefixes, with drawn record and segment boundaries; tunnel sessions relay streams, web requests are judged by the web model, other bytes are compared with the same bytes on the plain web port; non-trivial when the first 36 bytes did not arrive in one piece or were fewer than 36";
long prop_cases_quick = 12000, prop_cases_thorough = 150000; int prop_batch = 100;
static const std::vector<std::string> keys = {"key", "second-key", "0123456789abcdef"};

static Task<bool> write_cut(StreamP s, Bytes b, bool *cut) {
    size_t o = 0; int parts = G.one({1, 1, 2, 3, 40});
    for (int i = 0; i < parts && o < b.size(); i++) { size_t n = i == parts - 1 ? b.size() - o : 1 + G.below(G.coin() ? std::min<size_t>(b.size() - o, 40) : b.size() - o); if (o < 36 && o + n < b.size() && o + n < 36) *cut = true; if (!co_await s->write(b.substr(o, n))) co_return false; o += n; if (G.chance(1, 12)) co_await sleep_ms(G.below(200)); }
    co_return true;
}
static Task<> web() {
    auto buf = std::make_shared<Bytes>(); int n = 1 + G.below(4); std::vector<Req> q; Bytes all; bool cut = W.seg;
    for (int i = 0; i < n; i++) {
        bool keep = i < n - 1; Req r;
        if (G.chance(1, 3)) { r.path = r.target = G.one({"/", "/a.txt", "/echo", "/none", "/ech"}); r.keep = keep; if (keep) r.hdr = {{"Connection", " Keep-Alive"}}; } else for (int t = 0;; t++) { r = gen_req(keep, 9000); if (expect_for(r).k != Expect::ERROR_OR_CLOSE) break; if (t > 4) { r = Req(); r.keep = keep; if (keep) r.hdr = {{"Connection", " Keep-Alive"}}; break; } }
        q.push_back(r); all += r.bytes();
    }
    bool pipe = G.chance(1, 3); label("web"); if (q[0].bytes().size() < 36) { label("short-request"); cut = true; }
    StreamP s = co_await web_connect(443, true); CHECK(s, "TLS handshake failed");
    if (want_sample()) sample(strf("web, %d requests%s, first %s", n, pipe ? " at once" : "", q[0].brief().c_str()));
    if (pipe) co_await write_cut(s, all, &cut);
    for (int i = 0; i < n; i++) { if (!pipe) co_await write_cut(s, q[i].bytes(), &cut); std::string w = co_await answer(s, buf, q[i]); CHECK(w.empty(), "web request %d of %d: %s", i + 1, n, w.c_str()); }
    Bytes x = *buf; if (x.empty()) x = co_await s->read(100); CHECK(x.empty(), "bytes after the last response: %s", quoted(x).c_str()); if (cut) nontrivial(); s->close();
}
static Task<> tunnel() {
    bool cut = W.seg; Bytes key = keys[G.below(keys.size())]; key.resize(16, 0); label("tunnel");
    StreamP s = co_await web_connect(443, true); CHECK(s, "TLS handshake failed");
    uint32_t ip = 0x05060708; int port = 80; hosts[hkey(ip, port)]; Bytes h = auth_header(key), g = socks_greeting();
    if (want_sample()) sample("tunnel with key " + quoted(key));
    bool join = G.chance(1, 3); co_await write_cut(s, join ? h + g : h, &cut); if (!join) co_await s->write(g);
    Bytes r = co_await s->read_exact(2); CHECK(r == Bytes("\5\0", 2), "greeting on the shared port answered with %s", hex(r).c_str());
    co_await s->write(socks_connect4(ip, port)); r = co_await s->read_exact(10); CHECK(r.size() == 10 && !r.compare(0, 4, Bytes("\5\0\0\1", 4)), "request on the shared port answered with %s", hex(r).c_str());
    auto p = std::make_shared<Pair>(); p->a = s; p->b = co_await accept_far(hkey(ip, port), false); RelayOpt o; o.max_total = 60000; std::string b; std::string w = co_await relay(p, 3, o, &b); CHECK(w.empty(), "%s", w.c_str()); if (cut) nontrivial();
}
static Task<> refused() {
    bool cut = W.seg; label("bad-key"); Bytes key = G.one({"kez", "ke", "", "second-ke", "123456789abcdef", "KEY"}); key.resize(16, 0); StreamP s = co_await web_connect(443, true); CHECK(s, "TLS handshake failed");
    Bytes h = auth_header(key) + (G.coin() ? socks_greeting() : ""); if (want_sample()) sample("tunnel header with unknown key " + quoted(key)); co_await write_cut(s, h, &cut); Bytes r = co_await s->read(100); CHECK(r.empty() && s->eof, "unknown key on the shared port answered with %s", hex(r).c_str()); if (cut) nontrivial();
}
static Bytes dateless(Bytes b) { size_t i = b.find("Date:"); if (i != b.npos) { size_t e = b.find("\r\n", i); if (e != b.npos) b.erase(i, e - i); } return b; }
static Task<> other() {
    Bytes b; bool cut = W.seg; label("other");
    switch (G.below(6)) {
    case 0: b = auth_header("key", 0xa001beef ^ (1u << G.below(32))) + socks_greeting(); break;
    case 1: b = Bytes("\xa0\x01\xbe\xef", 4).substr(0, 1 + G.below(3)) + Bytes(G.one({"G", "\r\n\r\n", "\xef", "a"})) + G.blob(G.below(60)); break;
    case 2: b = "\xef\xbe\x01\xa0" + G.blob(40); break;
    case 3: b = G.blob(4 + G.below(200)); if (!b.compare(0, 4, "\xa0\x01\xbe\xef")) b[0] = 'x'; break;
    case 4: b = "GET /" + G.rbytes(G.below(8)) + " HTTP/1.1\r\n\r\n"; break;
    default: { Req r = gen_req(false, 100); b = r.bytes(); b[G.below(b.size())] = (char)G.below(256); if (!b.compare(0, 4, "\xa0\x01\xbe\xef")) b[0] = 'x'; } }
    if (b.size() > 4000) b.resize(4000);
    if (want_sample()) sample("other bytes " + quoted(b, 60));
    Bytes got[2]; bool timed[2];
    for (int i = 0; i < 2; i++) { StreamP s = co_await web_connect(i ? 80 : 443, !i); CHECK(s, "TLS handshake failed"); co_await write_cut(s, b, &cut); uint64_t t0 = W.now_ms; for (;;) { Bytes x = co_await s->read(100000); if (x.empty()) break; got[i] += x; } timed[i] = W.now_ms - t0 > 4000; s->close(); }
    CHECK(dateless(got[0]) == dateless(got[1]), "shared port answers %s with %s, plain web port with %s", quoted(b, 80).c_str(), quoted(got[0]).c_str(), quoted(got[1]).c_str());
    if (cut || b.size() < 36) nontrivial(); if (got[0].empty()) label(timed[0] ? "other-timeout" : "other-closed"); else label("other-answered"); (void)timed;
}
void prop_case() { sim_profile(); hosts_install(); switch (G.weighted({4, 3, 1, 2})) { case 0: spawn(web()); break; case 1: spawn(tunnel()); break; case 2: spawn(refused()); break; default: spawn(other()); } }
void prop_setup() { if (G.chance(1, 8)) use_rsa(); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(3, keys).json()); }
