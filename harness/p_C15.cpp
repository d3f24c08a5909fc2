// What crosses the network outside a completed TLS 1.2+ session: nothing but handshakes.
#include "tun.h"
#include <openssl/pem.h>

const char *prop_rule = "client role: 1..2 local clients with a key of 1..32 characters and data before, during and after the handshake, against a tunnel server that handshakes (drawn versions, ciphers, pauses), offers only older versions, is no TLS server, or stops, corrupts or cuts its handshake at a drawn byte; server role: 1..4 clients of drawn protocol versions or without TLS on each TLS port; non-trivial when a peer that cannot complete sent at least one byte, or the header and data were compared";
long prop_cases_quick = 6000, prop_cases_thorough = 100000; int prop_batch = 60;
static int mode; static std::string key; static bool rsa;
static SSL_CTX *mk(bool server, int lo, int hi, const char *ciph, const char *suites) {
    SSL_CTX *c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_min_proto_version(c, lo); SSL_CTX_set_max_proto_version(c, hi);
    std::string cs = ciph ? ciph : ""; if (rsa) for (size_t i; (i = cs.find("ECDSA")) != cs.npos;) cs.replace(i, 5, "RSA");
    if (ciph) SSL_CTX_set_cipher_list(c, cs.c_str()); if (suites) SSL_CTX_set_ciphersuites(c, suites); SSL_CTX_set_verify(c, SSL_VERIFY_NONE, 0);
    if (server) { BIO *b = BIO_new_mem_buf(TEST_CERT, -1); X509 *x = PEM_read_bio_X509(b, 0, 0, 0); SSL_CTX_use_certificate(c, x); X509_free(x); BIO_free(b); b = BIO_new_mem_buf(TEST_KEY, -1); EVP_PKEY *k = PEM_read_bio_PrivateKey(b, 0, 0, 0); SSL_CTX_use_PrivateKey(c, k); EVP_PKEY_free(k); BIO_free(b); } return c;
}
struct Rec { int type; size_t len; };
static std::string records(const Bytes &b, std::vector<Rec> &out) { // "" or what is not TLS
    size_t p = 0; while (p < b.size()) { unsigned t = (unsigned char)b[p]; if (t < 20 || t > 24) return strf("byte %02x at %zu does not start a TLS record", t, p); if (p + 3 <= b.size() && (unsigned char)b[p + 1] != 3) return strf("no TLS record at %zu", p); if (p + 5 > b.size()) return ""; size_t n = (unsigned char)b[p + 3] << 8 | (unsigned char)b[p + 4]; if (n > 16384 + 2048) return "oversized record"; out.push_back({(int)t, n}); p += 5 + n; } return "";
}
static void no_leak(const Bytes &tap, const Bytes &data, const char *who) {
    if (key.size() >= 5 && mode == 1) CHECK(tap.find(key.substr(0, 16)) == tap.npos, "the key appears in clear on the connection to the %s", who);
    if (data.size() >= 8) for (size_t i = 0; i + 8 <= data.size() && i < 64; i += 8) CHECK(tap.find(data.substr(i, 8)) == tap.npos, "local data appears in clear on the connection to the %s", who);
}
static void only_handshake(const Bytes &tap, const char *what) {
    std::vector<Rec> r; std::string w = records(tap, r); CHECK(w.empty(), "%s was sent something that is not TLS: %s (%s)", what, w.c_str(), quoted(tap, 60).c_str());
    for (auto &x : r) CHECK(x.type != 23 || x.len <= 19, "%s was sent %zu bytes of application data", what, x.len);
}
struct Plan { int kind; size_t cut = 0, flip = 0; int then = 0; SSL_CTX *ctx = nullptr; Bytes junk; std::string desc; };
static Plan gen_plan() {
    Plan p; p.kind = G.weighted({4, 2, 3, 4, 3});
    auto good = [] { switch (G.below(6)) { case 0: return mk(true, TLS1_2_VERSION, TLS1_2_VERSION, G.one<const char *>({nullptr, "ECDHE-ECDSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES256-SHA384", "ECDHE-ECDSA-CHACHA20-POLY1305"}), nullptr); case 1: return mk(true, TLS1_3_VERSION, TLS1_3_VERSION, nullptr, G.one<const char *>({"TLS_AES_128_GCM_SHA256", "TLS_CHACHA20_POLY1305_SHA256", "TLS_AES_256_GCM_SHA384"})); case 2: return mk(true, TLS1_VERSION, TLS1_2_VERSION, "ALL:@SECLEVEL=0", nullptr); case 3: return mk(true, TLS1_VERSION, TLS1_3_VERSION, "ALL:@SECLEVEL=0", nullptr); default: return mk(true, TLS1_2_VERSION, TLS1_3_VERSION, nullptr, nullptr); } };
    switch (p.kind) {
    case 0: p.ctx = good(); p.desc = "a good server"; break;
    case 1: p.ctx = mk(true, TLS1_VERSION, G.one({TLS1_1_VERSION, TLS1_VERSION}), "ALL:@SECLEVEL=0", nullptr); p.desc = "a server of older versions"; p.then = G.below(3); break;
    case 2: p.junk = G.one<int>({0, 1, 2, 3, 4}) == 0 ? Bytes("HTTP/1.1 200 OK\r\n\r\n") : G.coin() ? G.blob(G.below(600)) : Bytes("\x16\x03\x03", 3) + be16(G.one({0, 4, 100, 16384, 65535})) + G.blob(G.below(300)); if (G.chance(1, 5)) p.junk.clear(); p.then = G.below(3); p.desc = "no TLS server"; break;
    case 3: p.ctx = good(); p.cut = G.coin() ? G.below(200) : G.below(1100); p.then = G.below(3); p.desc = "a server that stops"; break;
    default: p.ctx = good(); p.flip = G.coin() ? G.below(130) : G.below(900); p.desc = "a server that garbles"; }
    p.desc += p.then == 0 ? "" : p.then == 1 ? ", then closes" : ", then resets"; return p;
}
static Task<> far_end(ConnP c, Plan p, std::shared_ptr<Bytes> data, std::shared_ptr<std::string> done) {
    c->tap = std::make_shared<Bytes>(); auto tap = c->tap;
    if (p.kind == 2) { if (G.coin()) co_await until([c] { return c->readable() || c->eof(); }); c->put(p.junk); if (!p.junk.empty()) nontrivial(); if (G.coin()) co_await sleep_ms(G.below(3000)); if (p.then == 1) c->fin(); if (p.then == 2) { c->take(1 << 20); c->rst(); } co_await until([c] { c->take(1 << 20); return c->eof(); }); no_leak(*tap, *data, "peer"); only_handshake(*tap, p.desc.c_str()); *done = "failed"; co_return; }
    SSL *ssl = SSL_new(p.ctx); BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(ssl, in, out); SSL_set_accept_state(ssl);
    size_t sent = 0; bool stopped = false, complete = false; Bytes plain; int pauses = G.chance(1, 3) ? 3 : 0; bool pushed = false;
    for (;;) {
        char b[4096]; int r = complete ? 1 : SSL_do_handshake(ssl); if (r == 1) { complete = true; }
        if (complete) { int n; while ((n = SSL_read(ssl, b, sizeof b)) > 0) plain.append(b, n); }
        int n; while ((n = BIO_read(out, b, sizeof b)) > 0) { Bytes x(b, n); if (p.kind == 4 && sent <= p.flip && p.flip < sent + n) x[p.flip - sent] ^= (char)(1 << G.below(8)); if (p.kind == 3 && sent + n > p.cut) { x.resize(p.cut > sent ? p.cut - sent : 0); stopped = true; } sent += n; if (!x.empty()) c->put(x); }
        if (stopped && p.then && !pushed) { pushed = true; if (p.then == 1) c->fin(); else { c->take(1 << 20); c->rst(); } }
        if (pauses && !complete && G.chance(1, 2)) { pauses--; co_await sleep_ms(G.below(1400)); }
        if (complete && p.kind == 0 && plain.size() >= 36 + data->size()) break;
        co_await until([c] { return c->readable() || c->eof(); }); if (!c->readable()) break;
        Bytes t = c->take(1 + G.below(5000)); BIO_write(in, t.data(), t.size());
    }
    no_leak(*tap, *data, "tunnel server"); std::vector<Rec> rr; std::string w = records(*tap, rr); CHECK(w.empty(), "the tunnel server was sent something that is not TLS: %s", w.c_str());
    if (complete) { CHECK(SSL_version(ssl) >= TLS1_2_VERSION, "a session of version %s was accepted", SSL_get_version(ssl)); Bytes want = auth_header(key) + *data; CHECK(plain.size() <= want.size() && !want.compare(0, plain.size(), plain), "%s got %s instead of the header and the local client's bytes", p.desc.c_str(), hex(plain.substr(0, 60)).c_str()); nontrivial();
        if (p.kind == 0) CHECK(plain == want, "%s got %zu of %zu bytes", p.desc.c_str(), plain.size(), want.size()); }
    else { if (sent) nontrivial(); only_handshake(*tap, p.desc.c_str()); CHECK(p.kind != 0, "the handshake with a good server did not complete"); }
    SSL_free(ssl); SSL_CTX_free(p.ctx); if (complete && p.kind == 0) { c->close(); } *done = complete ? "complete" : "failed";
}
static std::deque<std::function<void(ConnP)>> expect_far;
static Task<> local(int idx) {
    Plan p = gen_plan(); auto data = std::make_shared<Bytes>(); auto done = std::make_shared<std::string>(); label(p.desc); Bytes all = Bytes(1, 'A' + idx) + G.rbytes(G.one<size_t>({0, 8, 40, 3000, 9000, 12000}));
    if (want_sample()) sample(strf("key %s, %zu local bytes, %s (cut %zu flip %zu)", quoted(key, 40).c_str(), all.size(), p.desc.c_str(), p.cut, p.flip));
    bool never = p.kind == 2 && G.chance(1, 6);
    if (never) { p.desc = "no server at all"; hosts[hkey(TUN_IP, TUN_SERV_PORT)].plan.k = G.coin() ? ConnectPlan::NEVER : ConnectPlan::REFUSE; }
    *data = all; expect_far.push_back([p, data, done](ConnP c) { spawn(far_end(c, p, data, done)); });
    SockP d = dial(LOCAL_PORT); CHECK(d, "nothing listens on the local port"); StreamP s = std::make_shared<Stream>(std::make_shared<Conn>(d));
    size_t o = 0; while (o < all.size()) { size_t n = std::min<size_t>(all.size() - o, G.coin() ? all.size() : 1 + G.below(500)); if (!co_await s->write(all.substr(o, n))) break; o += n; if (!o || G.chance(1, 4)) co_await sleep_ms(G.below(600)); }
    uint64_t t0 = W.now_ms; bool closes = p.kind == 0;
    Bytes r = co_await s->read(1000, 40000); CHECK(r.empty(), "the local client got %s, which nobody sent", hex(r).c_str());
    if (!closes && *done != "complete") CHECK(s->eof, "%s did not complete the handshake, but the local client is still connected after %lu s", p.desc.c_str(), (unsigned long)(W.now_ms - t0) / 1000);
    s->close();
}
static Task<> visitor(int idx) {
    int port = G.one({443, TUN_PORT}); if (mode == 3) port = 443; int kind = G.below(5); SockP d = dial(port); CHECK(d, "nothing listens on %d", port); auto c = std::make_shared<Conn>(d); c->tap = std::make_shared<Bytes>(); auto tap = c->tap;
    if (kind <= 1) { // older versions
        SSL_CTX *x = mk(false, TLS1_VERSION, kind ? TLS1_1_VERSION : TLS1_VERSION, "ALL:@SECLEVEL=0", nullptr); auto t = std::make_shared<TlsStream>(c, x, false); bool ok = co_await t->handshake(20000); CHECK(!ok, "a client of version %s was accepted", SSL_get_version(t->ssl)); CHECK(!t->timedout, "a client of an older version is kept waiting for 20 s"); co_await until([c] { c->take(1 << 20); return c->eof(); }, 20000); CHECK(c->eof(), "a client of an older version is still connected"); only_handshake(*tap, "a client of an older version"); nontrivial(); label("older client"); SSL_CTX_free(x); c->close(); co_return;
    }
    if (kind <= 3) {
        Bytes j; switch (G.below(6)) { case 0: j = "GET /echo HTTP/1.1\r\nConnection: Keep-Alive\r\n\r\n"; break; case 1: j = auth_header("key") + socks_greeting() + socks_connect4(0x05060708, 80); break; case 2: j = G.rbytes(1 + G.below(800)); break; case 3: j = Bytes("\x16\x03\x01", 3) + be16(G.below(600)) + G.blob(G.below(800)); break; case 4: j = Bytes("\x80\x2e\x01\x00\x02", 5) + G.blob(60); break; default: j = Bytes("\x15\x03\x03\x00\x02\x02\x28", 7); }
        if (want_sample()) sample(strf("port %d gets %s", port, quoted(j, 40).c_str())); label("no TLS client"); nontrivial();
        size_t o = 0; while (o < j.size() && d->open) { size_t n = std::min<size_t>(j.size() - o, G.coin() ? j.size() : 1 + G.below(30)); c->put(j.substr(o, n)); o += n; if (G.chance(1, 6)) co_await sleep_ms(G.below(900)); }
        co_await until([c] { c->take(1 << 20); return c->eof(); }, 20000); CHECK(c->eof(), "a client that does not speak TLS (%s) is still connected after 20 s", quoted(j, 20).c_str()); only_handshake(*tap, "a client without TLS"); for (auto r : {"HTTP/1.1", "\5\0"}) if (r[0] == 'H') CHECK(tap->find(r) == tap->npos, "answered in clear"); c->close(); co_return;
    }
    label("good client"); SSL_CTX *x = G.coin() ? mk(false, TLS1_2_VERSION, TLS1_2_VERSION, nullptr, nullptr) : mk(false, TLS1_3_VERSION, TLS1_3_VERSION, nullptr, nullptr); auto t = std::make_shared<TlsStream>(c, x, false); bool ok = co_await t->handshake(); CHECK(ok, "a good TLS client was refused");
    if (port == TUN_PORT) { co_await t->write(auth_header("key") + socks_greeting()); Bytes r = co_await t->read_exact(2); CHECK(r == Bytes("\5\0", 2), "greeting refused"); } else { co_await t->write("GET /echo HTTP/1.1\r\n\r\n"); Bytes r = co_await t->read_all(); CHECK(!r.compare(0, 12, "HTTP/1.1 200"), "request refused"); }
    std::vector<Rec> rr; CHECK(records(*tap, rr).empty(), "not TLS"); CHECK(tap->find("HTTP/1.1") == tap->npos, "sent in clear"); SSL_CTX_free(x); t->close();
}
void prop_case() {
    sim_profile(); if (W.cap_hi < 1000) W.cap_lo = W.cap_hi = 2000; W.creep_left = 1000; hosts_install(); expect_far.clear();
    if (mode == 1) { Host h; h.up = [](SockP k) { CHECK(!expect_far.empty(), "unexpected connection"); auto f = expect_far.front(); expect_far.pop_front(); f(std::make_shared<Conn>(k)); }; hosts[hkey(TUN_IP, TUN_SERV_PORT)] = h; spawn(local(0)); }
    else for (int i = 1 + G.below(4); i > 0; i--) spawn(visitor(i));
}
void prop_setup() {
    mode = G.one({1, 1, 2, 3}); rsa = G.chance(1, 3); if (rsa) use_rsa(); peers_init(); site_build(); sim_case_entry = prop_case; Conf c = tun_conf(mode);
    size_t n = G.one<size_t>({3, 1, 15, 16, 17, 31, 32, 8}); key = ""; for (size_t i = 0; i < n; i++) key += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!$%&/()=?.,;:"[G.below(77)]; c.local_auth = key; sim_boot(c.json());
}
