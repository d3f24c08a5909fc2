#include "mix.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

Mix MX;
extern void sim_wake_dgram(SockP);
std::vector<std::pair<int, bool>> mix_ports() { if (MX.mode == 1) return {{LOCAL_PORT, false}, {80, false}, {443, true}}; if (MX.mode == 2) return {{TUN_PORT, true}, {80, false}, {443, true}}; return {{443, true}, {80, false}}; }

Bytes mutate(Bytes b) {
    int n = G.one({1, 1, 2, 4, 10});
    while (n--) {
        size_t p = b.empty() ? 0 : G.below(b.size()), l = b.empty() ? 0 : 1 + G.below(std::min<size_t>(b.size() - p, G.coin() ? 8 : 400));
        switch (G.below(9)) {
        case 0: if (!b.empty()) b[p] ^= (char)(1 << G.below(8)); break;
        case 1: if (!b.empty()) b[p] = (char)G.one<int>({0, 255, 127, 128, '\r', '\n', ' ', ':', '.', '/', 5, 1, 3, 0xc0}); break;
        case 2: b.insert(p, G.rbytes(1 + G.below(6))); break;
        case 3: b.erase(p, l); break;
        case 4: b.insert(p, b.substr(p, l)); break;
        case 5: b.resize(p); break;
        case 6: b.insert(p, Bytes(G.one<size_t>({10, 64, 255, 256, 1024, 4096, 9000, 17000}), (char)G.one<int>({'A', 0, '\n', ' ', 255}))); break;
        case 7: if (b.size() > 1) { size_t q = G.below(b.size()); std::swap(b[p], b[q]); } break;
        default: b += G.blob(G.below(300));
        }
    }
    return b;
}
static Bytes client_hello() { SSL *s = SSL_new(tls_client_ctx()); BIO *i = BIO_new(BIO_s_mem()), *o = BIO_new(BIO_s_mem()); SSL_set_bio(s, i, o); SSL_set_connect_state(s); SSL_do_handshake(s); char b[4096]; int n = BIO_read(o, b, sizeof b); SSL_free(s); return Bytes(b, std::max(n, 0)); }
static Bytes web_junk(std::string &d) {
    Bytes b; int n = G.one({1, 1, 2, 4});
    for (int i = 0; i < n; i++) switch (G.below(8)) {
        case 0: b += "GET " + Bytes(G.one<size_t>({1, 4000, 4091, 4096, 5000}), '/') + " HTTP/1.1\r\n\r\n"; d += "long "; break;
        case 1: b += "POST /echo HTTP/1.1\r\nContent-Length: " + std::string(G.one({"-1", "4294967296", "2147483647", "99999999999999999999", "0x10", "12abc", "16384", "16385", "20000", "1000000", ""})) + "\r\n\r\n" + G.blob(G.below(20000)); d += "length "; break;
        case 2: { b += "GET / HTTP/1.1\r\n"; for (int j = G.one({1, 60, 300}); j > 0; j--) b += G.one({"a:b\r\n", ":\r\n", "a\r\n", "a :b\r\n", "\n", "a:b\n", " folded\r\n", "Connection: Keep-Alive\r\n", "Content-Length: 5\r\n", "Transfer-Encoding: chunked\r\n"}); b += "\r\n"; d += "fields "; break; }
        case 3: b += G.one({"G", "GE", "GET", "GET ", "GET /", "OPTIONS * HTTP/1.1\r\n\r\n", "GET http:// HTTP/1.1\r\n\r\n", "GET http://h: HTTP/1.1\r\n\r\n", "GET h:/ HTTP/1.1\r\n\r\n", "GET / HTTP/99999999999.1\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", "\r\n\r\n", "GET / HTTP/1.1\n\n"}); d += "stub "; break;
        case 4: b += G.rbytes(G.below(60)); d += "random "; break;
        default: { Req r = gen_req(G.coin(), G.one({100, 16000, 40000})); Bytes x = r.bytes(); if (G.coin()) { x = mutate(x); d += "mutated "; } else d += r.brief() + " "; b += x; }
        }
    return b;
}
static Bytes tun_junk(std::string &d) {
    Bytes b = G.chance(4, 5) ? auth_header("key") : auth_header(G.rbytes(16), G.coin() ? 0xa001beef : 0xa001bee0); d += "header ";
    if (G.chance(1, 8)) { b = mutate(b); d += "mutated "; }
    b += G.chance(4, 5) ? socks_greeting() : G.chance(1, 2) ? socks_greeting(G.rbytes(1 + G.below(255))) : Bytes("\5\0", 2) + G.blob(G.below(20)); return b;
}
static Bytes socks_junk(std::string &d) {
    switch (G.below(7)) {
    case 0: d += "name "; { Bytes n = G.coin() ? gen_name() : gen_bad_name(); if (n.empty()) n = "n"; return socks_connect_name(n.substr(0, 255), G.below(65536)); }
    case 1: d += "odd request "; return mutate(socks_connect4(0x05060709, 80));
    case 2: d += "command "; return socks_connect4(0x05060709, 80, G.below(256), G.one({5, 4, 0, 255}));
    case 3: d += "v6 "; return Bytes("\5\1\0\4", 4) + G.rbytes(18);
    case 4: d += "name "; return socks_connect_name(G.one({"a.example", "b.example", "c.example"}), 80);
    default: d += "address "; return socks_connect4(G.one<uint32_t>({0x05060709, 0, 0xffffffff, 0x7f000001}) + G.below(2), G.below(65536));
    }
}
Task<> misbehave(StreamP s, std::shared_ptr<std::string> how) {
    auto t = std::dynamic_pointer_cast<TlsStream>(s); int n = G.one({0, 1, 2, 5});
    while (n-- && !s->c->dead) switch (G.below(7)) {
        case 0: case 1: co_await s->write(G.blob(1 + G.below(G.one({10, 2000, 30000})))); break;
        case 2: co_await s->read(1 + G.below(40000), G.below(3000)); break;
        case 3: co_await s->nap(G.below(4000)); break;
        case 4: if (t && t->hs) { *how += G.coin() ? "raw " : "empty "; s->c->put(G.coin() ? G.rbytes(1 + G.below(40)) : mutate(Bytes("\x17\x03\x03\x00\x20", 5) + G.blob(32))); } break;
        case 5: if (t && t->hs) { if (SSL_version(t->ssl) == TLS1_3_VERSION) SSL_key_update(t->ssl, G.coin() ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); else SSL_renegotiate(t->ssl); SSL_do_handshake(t->ssl); t->flush(); *how += "rekey "; } break;
        default: co_await s->read(1 << 20, 10); }
    switch (G.below(6)) {
    case 0: *how += "close"; s->close(); break;
    case 1: *how += "reset"; s->reset(); break;
    case 2: *how += "half-close"; s->c->fin(); for (uint64_t end = W.now_ms + 30000; W.now_ms < end && !s->eof;) { co_await s->read(1 << 16, 5000); } s->close(); break;
    case 3: *how += "wait"; for (uint64_t end = W.now_ms + 30000; W.now_ms < end && !s->eof;) { co_await s->read(1 << 16, 5000); } s->close(); break;
    case 4: *how += "stall"; co_await until([s] { return !s->c->s->open; }, 30000); s->close(); break;
    default: *how += "notify"; if (t && t->hs) { SSL_shutdown(t->ssl); t->flush(); } co_await sleep_ms(G.below(2000)); if (G.coin()) s->reset(); else s->close(); }
}
static Task<> far_plain(ConnP c) { auto h = std::make_shared<std::string>(); StreamP s = std::make_shared<Stream>(c); co_await misbehave(s, h); }
static Task<> far_tls(ConnP c) {
    auto h = std::make_shared<std::string>(); int k = MX.far_after_header ? 0 : G.below(5);
    if (k == 1) { c->put(G.rbytes(G.below(200))); StreamP s = std::make_shared<Stream>(c); co_await misbehave(s, h); co_return; }
    if (k == 2) { StreamP s = std::make_shared<Stream>(c); if (G.coin()) co_await until([c] { return c->readable() || c->eof(); }, 3000); co_await misbehave(s, h); co_return; }
    auto t = std::make_shared<TlsStream>(c, tls_server_ctx(), true); StreamP s = t;
    if (!co_await t->handshake(12000)) { if (G.coin()) c->rst(); else c->close(); co_return; }
    if (k == 3) { co_await misbehave(s, h); co_return; }
    Bytes b = co_await s->read_exact(36, 12000); if (b.size() == 36) { Bytes m = co_await s->read_exact(8, 12000); if (MX.expected.count(m)) { CHECK(b == auth_header("key"), "wrong header %s", hex(b).c_str()); MX.met[m] = s; co_return; } }
    c->s->bad = true; co_await misbehave(s, h);
}
static Task<> odd_resolver(SockP s, Bytes query) {
    DnsQ q = dns_parse_query(query); int n = G.one({1, 1, 0, 2, 3});
    while (n-- && s->open) {
        if (G.coin()) co_await sleep_ms(G.below(G.one({50, 4000}))); if (!s->open) break;
        Bytes r = dns_a_reply(q, G.one<uint32_t>({0x05060709, 0x0506070a, 0xffffffff, 0}), G.below(MX.ttl_max + 1)); auto from = s->dst;
        switch (int k = G.below(6); MX.ttl_max < 100 && (k == 0 || k == 4) ? 1 : k) { case 0: r = mutate(r); break; case 1: r = G.rbytes(G.below(80)); break; case 2: r = query; break; case 3: from.sin_port ^= 1; break; case 4: r = dns_header(q.id, 0x8180 | G.below(16), 1, G.below(5), 0, 0) + q.question + G.blob(G.below(G.one({40, 600}))); break; default: break; }
        if (G.chance(1, 12)) { s->so_error = ECONNREFUSED; sim_wake_dgram(s); continue; }
        s->dq.push_back({r, from}); sim_wake_dgram(s);
    }
}
static Task<> good_resolver(SockP s, DnsQ q, uint32_t ip) { if (G.chance(1, 4)) co_await sleep_ms(G.below(1500)); dns_send(s, dns_a_reply(q, ip, G.below(MX.ttl_max + 1))); co_return; }
void mix_install(int mode) {
    MX.mode = mode;
    W.on_connect = [](SockP s) {
        auto it = hosts.find(hkey(dst_ip(s), dst_port(s))); if (it != hosts.end()) { it->second.dials++; return it->second.plan; }
        if (MX.calm) fail("the program connects to %s:%d, which nobody asked for", ipstr(dst_ip(s)).c_str(), dst_port(s));
        ConnectPlan p; switch (MX.far_after_header ? 0 : G.below(8)) { case 5: case 6: p.k = ConnectPlan::REFUSE; p.err = G.one({ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT, EADDRNOTAVAIL}); break; case 7: p.k = ConnectPlan::NEVER; break; default: break; }
        if (G.chance(1, 5)) p.immediate = true; else if (G.chance(1, 3)) p.delay_ms = G.below(4000); return p; };
    W.on_established = [](SockP s) { if (hosts.count(hkey(dst_ip(s), dst_port(s)))) return far_arrived(s); auto c = std::make_shared<Conn>(s); if (MX.mode != 1) s->bad = true; if (MX.mode == 1) spawn(far_tls(c)); else spawn(far_plain(c)); };
    W.on_dgram = [](SockP s, Bytes b) { DnsQ q = dns_parse_query(b); std::string n = q.name; for (auto &c : n) c = tolower(c); auto it = MX.names.find(n); if (q.ok && it != MX.names.end()) spawn(good_resolver(s, q, it->second)); else spawn(odd_resolver(s, b)); };
}
Task<> hostile(std::shared_ptr<std::string> how) {
    auto ports = mix_ports(); auto [port, tls] = ports[G.weighted({4, 2, 3}) % ports.size()]; *how += strf("%d: ", port);
    SockP d = dial(port); if (!d) fail("nothing listens on %d", port); d->bad = true; auto c = std::make_shared<Conn>(d); StreamP s = std::make_shared<Stream>(c); Bytes b;
    bool tunnel = port == TUN_PORT || (MX.mode == 3 && tls && G.coin());
    if (tls && G.chance(1, 4)) {
        switch (G.below(4)) { case 0: b = G.rbytes(G.below(400)); *how += "junk "; break; case 1: b = client_hello(); *how += "hello "; break; case 2: b = mutate(client_hello()); *how += "mutated hello "; break; default: b = web_junk(*how); }
    } else if (tls) {
        auto t = std::make_shared<TlsStream>(c, tls_client_ctx(), false); int lim = G.one({10000, 10000, 10000, 1}); if (!co_await t->handshake(lim)) { *how += "no handshake"; if (G.coin()) c->close(); else c->rst(); co_return; } s = t;
        b = tunnel ? tun_junk(*how) : web_junk(*how);
    } else if (port == LOCAL_PORT) { b = G.blob(G.one<size_t>({0, 1, 100, 5000, 12287, 12288, 12289, 20000})); *how += strf("%zu bytes ", b.size()); }
    else b = web_junk(*how);
    size_t o = 0; int parts = G.one({1, 1, 3, 12});
    for (int i = 0; i < parts && o < b.size(); i++) { size_t n = i == parts - 1 ? b.size() - o : 1 + G.below(b.size() - o); if (!co_await s->write(b.substr(o, n))) break; o += n; if (parts > 1 && G.chance(1, 6)) co_await s->nap(G.below(1500)); }
    if (tunnel && s->c != nullptr && dynamic_cast<TlsStream *>(s.get())) {
        if (G.chance(9, 10)) co_await s->read_exact(2, 5000);
        Bytes r = socks_junk(*how); if (G.chance(1, 3) && r.size() > 1) { size_t k = 1 + G.below(r.size() - 1); co_await s->write(r.substr(0, k)); co_await s->nap(G.below(3000)); r = r.substr(k); } co_await s->write(r);
        if (G.coin()) co_await s->read_exact(10, G.below(12000));
    }
    co_await misbehave(s, how);
}
Task<PairP> open_named(int port, Bytes key, std::string name, uint32_t ip, int dport) {
    auto p = std::make_shared<Pair>(); std::string low = name; for (auto &c : low) c = tolower(c); MX.names[low] = ip; hosts[hkey(ip, dport)];
    p->a = co_await web_connect(port, true); if (!p->a) { p->err = "TLS handshake failed"; co_return p; }
    co_await p->a->write(auth_header(key) + socks_greeting()); Bytes r = co_await p->a->read_exact(2); if (r != Bytes("\5\0", 2)) { p->err = "greeting answered with " + hex(r); co_return p; }
    co_await p->a->write(socks_connect_name(name, dport)); r = co_await p->a->read_exact(10); if (r.size() != 10 || r.compare(0, 4, Bytes("\5\0\0\1", 4))) { p->err = "request for a name answered with " + hex(r); co_return p; }
    p->b = co_await accept_far(hkey(ip, dport), false); co_return p;
}
Task<PairP> open_local(int id) {
    auto p = std::make_shared<Pair>(); Bytes m = strf("<%06d>", id); MX.expected.insert(m); SockP d = dial(LOCAL_PORT); if (!d) fail("nothing listens on the local port"); p->a = std::make_shared<Stream>(std::make_shared<Conn>(d));
    co_await p->a->write(m); co_await until([p, m] { return MX.met.count(m) || !p->a->c->s->open; }); if (!MX.met.count(m)) { p->err = "the local client was disconnected"; co_return p; } p->b = MX.met[m]; co_return p;
}
static Task<std::string> echo(PairP p, const char *what) {
    if (!p->err.empty()) co_return std::string(what) + ": " + p->err; Bytes u = G.blob(200), d = G.blob(300);
    co_await p->a->write(u); if (co_await p->b->read_exact(u.size()) != u) co_return std::string(what) + ": bytes up were not delivered"; co_await p->b->write(d); if (co_await p->a->read_exact(d.size()) != d) co_return std::string(what) + ": bytes down were not delivered"; p->a->close(); p->b->close(); co_return std::string();
}
Task<std::string> probe() {
    static int ids = 900000; int id = ids; ids += 2; std::string w; int dport = 8000 + id % 50000;
    for (auto [port, tls] : mix_ports()) if (port == 80 || port == 443) {
        StreamP s = co_await web_connect(port, tls); if (!s) co_return strf("port %d: TLS handshake failed", port); Req r; r.path = r.target = G.one({"/a.txt", "/f3.png", "/echo"}); auto buf = std::make_shared<Bytes>(); co_await s->write(r.bytes()); w = co_await answer(s, buf, r); if (!w.empty()) co_return strf("port %d: ", port) + w; s->close();
    }
    if (MX.mode == 1) { PairP p = co_await open_local(id); w = co_await echo(p, "local port"); co_return w; }
    int port = MX.mode == 2 ? TUN_PORT : 443; PairP p = co_await open_pair(MX.mode, port, "key", 0x05060708, dport); w = co_await echo(p, "tunnel to an address"); if (!w.empty()) co_return w;
    p = co_await open_named(port, "key", "probe.example", 0x05060708, dport + 1); w = co_await echo(p, "tunnel to a name"); co_return w;
}
