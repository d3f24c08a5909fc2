#include "tun.h"
#include <algorithm>
#include <cstring>

std::map<uint64_t, Host> hosts;
static std::map<uint64_t, std::deque<SockP>> arrived;
void far_arrived(SockP s) { arrived[hkey(dst_ip(s), dst_port(s))].push_back(s); }
void hosts_install() {
    W.on_connect = [](SockP s) { auto it = hosts.find(hkey(dst_ip(s), dst_port(s))); if (it == hosts.end()) fail("the program connects to %s:%d, which nobody asked for", ipstr(dst_ip(s)).c_str(), dst_port(s)); it->second.dials++; return it->second.plan; };
    W.on_established = [](SockP s) { uint64_t k = hkey(dst_ip(s), dst_port(s)); auto it = hosts.find(k); if (it != hosts.end() && it->second.up) it->second.up(s); else arrived[k].push_back(s); };
}
Conf tun_conf(int mode, const std::vector<std::string> &keys) {
    Conf c; c.mode = mode; c.keys = keys; c.serv_port = TUN_PORT; c.local_port = LOCAL_PORT; c.local_serv_port = TUN_SERV_PORT; c.local_ip = "7.7.7.7"; c.local_auth = "key"; c.home = site_home(); c.http = {80}; c.https = {443}; return c;
}
Task<StreamP> accept_far(uint64_t k, bool tls) {
    co_await until([k] { return !arrived[k].empty(); }); SockP s = arrived[k].front(); arrived[k].pop_front(); auto c = std::make_shared<Conn>(s);
    if (!tls) co_return std::make_shared<Stream>(c);
    auto t = std::make_shared<TlsStream>(c, tls_server_ctx(), true); if (!co_await t->handshake()) co_return StreamP(); co_return StreamP(t);
}
Task<PairP> open_pair(int role, int port, Bytes key, uint32_t ip, int dport) {
    auto p = std::make_shared<Pair>();
    if (role == 1) {
        uint64_t k = hkey(TUN_IP, TUN_SERV_PORT); hosts[k];
        SockP d = dial(LOCAL_PORT); if (!d) fail("nothing listens on the local port"); p->a = std::make_shared<Stream>(std::make_shared<Conn>(d));
        p->a->c->put("x"); // the program dials when the first byte arrives
        p->b = co_await accept_far(k, true); if (!p->b) { p->err = "TLS handshake with the tunnel server failed"; co_return p; }
        p->head = co_await p->b->read_exact(37); if (p->head.size() != 37) { p->err = "the tunnel server did not get the header"; co_return p; }
        if (p->head != auth_header(key) + "x") p->err = "wrong header " + hex(p->head);
        co_return p;
    }
    hosts[hkey(ip, dport)];
    p->a = co_await web_connect(port, true); if (!p->a) { p->err = "TLS handshake failed"; co_return p; }
    Bytes h = auth_header(key) , g = socks_greeting(); if (G.coin()) { co_await p->a->write(h + g); } else { co_await p->a->write(h); co_await p->a->write(g); }
    Bytes r = co_await p->a->read_exact(2); if (r != Bytes("\5\0", 2)) { p->err = "greeting answered with " + hex(r); co_return p; }
    co_await p->a->write(socks_connect4(ip, dport));
    r = co_await p->a->read_exact(10); if (r.size() != 10 || r.compare(0, 4, Bytes("\5\0\0\1", 4))) { p->err = "request answered with " + hex(r); co_return p; }
    p->b = co_await accept_far(hkey(ip, dport), false); co_return p;
}

// Stream content is a function of the stream and the position.
Bytes stream_bytes(uint64_t id, size_t from, size_t n) { Bytes b(n, 0); for (size_t i = 0; i < n; i++) { uint64_t x = (from + i) * 0x9e3779b97f4a7c15ULL + id * 0xbf58476d1ce4e5b9ULL; x ^= x >> 29; x *= 0x94d049bb133111ebULL; b[i] = (char)(x >> 40); } return b; }

namespace {
struct Dir { uint64_t id; StreamP from, to; size_t total = 0, sent = 0, got = 0; bool sdone = false, rdone = false; std::string err; std::vector<size_t> msgs; int naps = 0; size_t chunk = 0; int pause = 0, rekeys = 0; bool from_open = true; };
typedef std::shared_ptr<Dir> DirP;
// A TLS end may change its keys at any time and ask the other end to follow.
void rekey(DirP d, const StreamP &s) {
    auto t = std::dynamic_pointer_cast<TlsStream>(s); if (!t || !d->rekeys || !G.chance(1, 3)) return; d->rekeys--;
    if (SSL_version(t->ssl) != TLS1_3_VERSION || t->asked > t->answered) return; // one at a time: OpenSSL 3.0 ends the session when a second one arrives while its answer waits behind a blocked write
    bool ask = G.chance(3, 4); if (SSL_key_update(t->ssl, ask ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED) == 1) { t->asked += ask; SSL_do_handshake(t->ssl); t->flush(); label("rekey"); }
}
Task<> sender(DirP d) {
    for (size_t m : d->msgs) { rekey(d, d->from); if (d->pause && G.chance(1, 4)) { d->pause--; co_await sleep_ms(G.below(2500)); } if (!co_await d->from->write(stream_bytes(d->id, d->sent, m))) break; d->sent += m; }
    d->sdone = true;
}
Task<> receiver(DirP d) {
    for (;;) {
        Bytes b = co_await d->to->read(1 + G.below(d->chunk)); if (b.empty()) break;
        if (b != stream_bytes(d->id, d->got, b.size())) { Bytes w = stream_bytes(d->id, d->got, b.size()); size_t i = 0; while (b[i] == w[i]) i++; d->err = strf("byte %zu differs from what was sent", d->got + i); break; }
        d->got += b.size(); rekey(d, d->to);
        if (d->naps && !d->to->pending() && G.chance(1, 3)) { d->naps--; co_await sleep_ms(G.below(2500)); }
    }
    d->rdone = true;
}
std::vector<size_t> messages(size_t total) {
    std::vector<size_t> v; size_t t = 0; int k = G.below(6);
    while (t < total) { size_t m; switch (k) { case 0: m = total; break; case 1: m = 12288 + G.range(-1, 1); break; case 2: m = 1 + G.below(40); break; case 3: m = 16384 + G.range(-1, 1); break; case 4: m = 1 + G.below(30000); break; default: m = G.one<size_t>({1, 2, 100, 1000, 4096, 8192, 12287, 12288, 12289, 16384, 24576, 50000}); } if (v.size() >= 200) m = total; m = std::min(m, total - t); v.push_back(m); t += m; }
    return v;
}
size_t amount(size_t max) { switch (G.below(6)) { case 0: return G.below(3); case 1: return G.below(200); case 2: return std::min<size_t>(max, 12288 * (1 + G.below(3)) + G.range(-2, 2)); case 3: return std::min<size_t>(max, 16384 + G.range(-2, 2)); case 4: return max; default: return G.below(max + 1); } }
}
Task<std::string> relay(PairP p, int role, RelayOpt o, std::string *brief) {
    static uint64_t ids = 1; DirP d[2]; for (int i = 0; i < 2; i++) { d[i] = std::make_shared<Dir>(); d[i]->id = ids++; d[i]->from = i ? p->b : p->a; d[i]->to = i ? p->a : p->b; }
    size_t lim = std::min<size_t>(o.max_total, 3000 + 400 * std::min({W.cap_lo, p->a->c->s->cap, p->b->c->s->cap}));
    bool lock = G.chance(1, 3); int closer = G.below(2); bool early = G.chance(1, 2); bool rough = G.chance(1, 4);
    for (auto &x : d) { x->total = amount(lim); x->chunk = G.one<size_t>({1 << 16, 4096, 300}); if (x->total / x->chunk > 2000) x->chunk = 1 << 16; x->naps = G.one({0, 0, 3, 8}); x->pause = G.one({0, 0, 4}); x->rekeys = G.one({0, 0, 0, 2, 6}); x->from->win = G.one<size_t>({1 << 22, 30000, 4000}); }
    if (brief) *brief = strf("%zu bytes up, %zu down, %s, %s closes %s", d[0]->total, d[1]->total, lock ? "in lockstep" : "at once", closer ? "far" : "near", early ? "after sending" : "after receiving everything");
    for (auto &x : d) spawn(receiver(x));
    if (lock) {
        int n = 2 + G.below(12);
        for (int i = 0; i < n; i++) {
            DirP x = d[G.below(2)]; size_t m = 1 + G.below(G.one<size_t>({10, 500, 20000, 60000})); m = std::min(m, lim / n + 1);
            rekey(x, x->from);
            // a TLS 1.2 server may renegotiate: it sends nothing more until that is over, the near end may send once it is under way (OpenSSL puts it off while a write is blocked)
            auto t = std::dynamic_pointer_cast<TlsStream>(p->b); int rn = t && x->rekeys && SSL_version(t->ssl) == TLS1_2_VERSION ? 1 + G.below(3) : 0; // 1: before the message, 2: around it, 3: right after it
            auto reneg = [=] { x->rekeys--; SSL_renegotiate(t->ssl); SSL_do_handshake(t->ssl); t->flush(); label("renegotiation"); };
            auto over = [=] { return !SSL_renegotiate_pending(t->ssl) || d[1]->rdone || d[0]->rdone; };
            if (rn > 1) rn = x == d[0] ? 2 : 3;
            if (rn && rn < 3) { reneg(); co_await until([=] { return over() || (rn == 2 && SSL_in_init(t->ssl)); }); }
            if (!co_await x->from->write(stream_bytes(x->id, x->sent, m))) co_return strf("the program closed the session after %zu bytes up, %zu down", d[0]->got, d[1]->got);
            if (rn == 3) reneg();
            if (rn) co_await until(over);
            x->sent += m; co_await until([x] { return x->got >= x->sent || x->rdone; });
            if (x->got < x->sent) co_return strf("%zu of %zu bytes from the %s end delivered before the session was closed%s", x->got, x->sent, x == d[0] ? "near" : "far", x->err.empty() ? "" : (": " + x->err).c_str());
        }
        for (auto &x : d) { x->total = x->sent; x->sdone = true; }
    } else {
        for (auto &x : d) { x->msgs = messages(x->total); spawn(sender(x)); }
    }
    DirP mine = d[closer], other = d[1 - closer];
    co_await until([=] { return mine->sdone; });
    if (!early) { co_await until([=] { return (other->sdone && other->got >= other->total) || other->rdone; }); co_await until([=] { return mine->got >= mine->total || mine->rdone; });
        for (auto &x : d) if (x->got < x->total) co_return strf("%zu of %zu bytes from the %s end delivered, then the session was closed%s", x->got, x->total, x == d[0] ? "near" : "far", x->err.empty() ? "" : (": " + x->err).c_str()); }
    // close the closer's end; when the other end may still be sending, keep draining
    StreamP s = mine->from;
    if (!early && rough) s->close(); else { if (auto t = std::dynamic_pointer_cast<TlsStream>(s)) { if (G.chance(3, 4)) { SSL_shutdown(t->ssl); t->flush(); } } s->c->fin(); }
    co_await until([=] { return mine->rdone; });
    if (!mine->err.empty()) co_return mine->err;
    if (mine->got != mine->total) co_return strf("%zu of %zu bytes from the closing %s end delivered before the other end saw the close", mine->got, mine->total, closer ? "far" : "near");
    if (!other->err.empty()) co_return other->err;
    co_return std::string();
}

std::string gen_name() {
    size_t want; switch (G.below(6)) { case 4: want = G.one<size_t>({1, 2, 62, 63, 64, 65, 100, 126, 127, 128, 129, 191, 192, 200, 250}); break; case 0: want = 1 + G.below(4); break; case 1: want = 253 - G.below(3); break; case 2: want = 60 + G.below(10); break; default: want = 3 + G.below(40); }
    std::string n; int style = G.below(3);
    while (n.size() < want) {
        size_t left = want - n.size(); if (left == 1 && !n.empty() && n.size() < 252) { n += 'q'; if (n.size() - (n.rfind('.') == n.npos ? 0 : n.rfind('.') + 1) <= 63) break; n.pop_back(); break; }
        if (!n.empty()) { n += '.'; left--; } size_t l = style == 0 ? 63 : 1 + G.below(style == 1 ? 10 : 63); if (l > left) l = left; if (!l) { n.pop_back(); break; }
        for (size_t i = 0; i < l; i++) n += "abcdefghijklmnopqrstuvwxyz0123456789-_ABCXYZ"[G.below(G.chance(1, 4) ? 44 : 26)];
    }
    if (n.size() > 253) n.resize(253); while (!n.empty() && n.back() == '.') n.pop_back(); if (n.empty()) n = "a"; return n; // a final dot is left to the callers
}
std::string gen_bad_name() {
    std::string n = gen_name();
    switch (G.below(6)) {
    case 0: { std::string l(G.chance(1, 3) ? 253 + G.below(3) : 64 + G.below(190), 'x'); n = l; break; }
    case 1: { size_t p = G.below(n.size()); n = n.substr(0, p) + ".." + n.substr(p); break; }
    case 2: n[G.below(n.size())] = '\0'; break;
    case 3: { n = ""; while (n.size() < 254) n += "abcdefg."; n.resize(254 + G.below(2)); if (n.back() == '.') n.back() = 'z'; break; }
    case 4: n = "." + n; break;
    default: n = G.rbytes(1 + G.below(255)); n += '\0'; break;
    }
    if (n.size() > 255) n.resize(255); return n;
}
