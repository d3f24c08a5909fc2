// Admission to the tunnel service as a function of header and key list.
#include "tun.h"

const char *prop_rule = "a case is a key list of 0..120 keys (overlapping, nested, non-ASCII) and a history of 1..12 connections, one after the other or at once, each presenting a header (a key alone, padded, embedded, cut, one byte off, fragments of keys, wrong magic, truncated) with drawn record and segment boundaries; non-trivial when the history has at least two presentations of which at least one is refused";
long prop_cases_quick = 8000, prop_cases_thorough = 120000; int prop_batch = 40;
static std::vector<std::string> keys; static int mode;

static std::string gen_key() {
    int a = G.below(4); size_t n = a == 0 ? 1 + G.below(3) : a == 1 ? 16 - G.below(3) : a == 2 ? 1 + G.below(16) : 17 + G.below(10);
    std::string k; int al = G.below(3);
    for (size_t i = 0; i < n; i++) k += al == 0 ? (char)('a' + G.below(2)) : al == 1 ? (char)('a' + G.below(26)) : (char)(1 + G.below(255));
    if (al == 2) for (auto &c : k) if ((c & 0x80) || c < 32) c = (char)(0x20 + (c & 0x5f) % 0x5f); // JSON text stays valid UTF-8
    if (al == 2 && G.chance(1, 3) && n >= 2) { k.resize(n - 2); k += "\xc3\xa9"; }
    return k;
}
static bool admitted(const Bytes &h) {
    if (h.size() < 36 || h.compare(0, 4, Bytes("\xa0\x01\xbe\xef", 4))) return false;
    Bytes f = h.substr(4, 16); size_t z = f.find('\0'); if (z != f.npos) f.resize(z);
    for (auto &k : keys) if (f.find(k) != f.npos) return true;
    return false;
}
static bool ambiguous(const Bytes &h) { // key only after an embedded NUL: not judged
    if (admitted(h) || h.size() < 36 || h.compare(0, 4, Bytes("\xa0\x01\xbe\xef", 4))) return false;
    Bytes f = h.substr(4, 16); for (auto &k : keys) if (f.find(k) != f.npos) return true; return false;
}
static Bytes gen_header(std::string &kind) {
    Bytes f; std::string k = keys.empty() || G.chance(1, 10) ? gen_key() : keys[G.below(keys.size())];
    int c = G.below(9);
    switch (c) {
    case 0: case 1: f = k; kind = "key"; break;
    case 2: { size_t pre = G.below(17); f = G.coin() && !keys.empty() ? keys[G.below(keys.size())].substr(0, pre) : Bytes(pre, 'a'); f += k; kind = "embedded"; break; }
    case 3: f = k.substr(0, k.size() - 1); kind = "prefix"; break;
    case 4: f = k.substr(1); kind = "suffix"; break;
    case 5: f = k; f[G.below(f.size())] ^= (char)(1 << G.below(7)); kind = "off-by-bit"; break;
    case 6: f = G.rbytes(G.below(17)); kind = "random"; break;
    case 7: while (f.size() < 16) { std::string x = keys.empty() ? gen_key() : keys[G.below(keys.size())]; f += x.substr(0, 1 + G.below(x.size())); if (G.chance(1, 4)) break; } kind = "fragments"; break;
    default: f = k + Bytes(16, 'z'); kind = "padded"; break;
    }
    f = f.substr(0, 16); f.resize(16, 0);
    Bytes sec(16, 0); if (G.chance(1, 3)) { sec = G.coin() && !keys.empty() ? keys[G.below(keys.size())] : G.rbytes(16); if (G.coin() && k.size() > 1 && f[15]) sec = k.substr(1 + G.below(k.size() - 1)); sec.resize(16, 'k'); }
    uint32_t m = 0xa001beef; if (G.chance(1, 10)) { m ^= 1u << G.below(32); kind += ", wrong magic"; }
    Bytes h = be32(m) + f + sec; if (G.chance(1, 12)) { h.resize(G.below(36)); kind += ", truncated"; }
    return h;
}
struct Shot { Bytes h; std::string kind; bool want; };
static int done_n;
static Task<> present(Shot x) {
    StreamP s = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); CHECK(s, "TLS handshake failed");
    Bytes b = x.h; bool cutoff = b.size() < 36; bool join = !cutoff && G.chance(1, 4); if (join) b += socks_greeting();
    size_t o = 0; int parts = G.one({1, 1, 2, 5}); for (int i = 0; i < parts && o < b.size(); i++) { size_t n = i == parts - 1 ? b.size() - o : 1 + G.below(b.size() - o); if (!co_await s->write(b.substr(o, n))) break; o += n; s->drain(); if (G.chance(1, 10)) co_await s->nap(G.below(500)); }
    if (!cutoff && !join) co_await s->write(socks_greeting()); if (cutoff && G.coin()) s->c->fin();
    Bytes r = co_await s->read_exact(2);
    if (x.want) CHECK(r == Bytes("\5\0", 2), "header %s (%s) contains a configured key but got %s", hex(x.h).c_str(), x.kind.c_str(), r.empty() ? "nothing" : hex(r).c_str());
    else CHECK(r.empty() && s->eof, "header %s (%s) contains no configured key but got %s", hex(x.h).c_str(), x.kind.c_str(), hex(r).c_str());
    s->close(); done_n++;
}
static Task<> history() {
    int n = 1 + G.below(12); bool conc = G.chance(1, 3); std::string t; int ref = 0, adm = 0;
    for (int i = 0; i < n; i++) {
        Shot x; for (int k = 0;; k++) { x.h = gen_header(x.kind); if (!ambiguous(x.h)) break; if (k > 5) { x.h = auth_header("\1\2\3"); x.kind = "odd"; break; } }
        if (mode == 3 && (x.h.size() < 4 || x.h.compare(0, 4, Bytes("\xa0\x01\xbe\xef", 4)))) { x.h = auth_header(x.h); x.kind = "field made of a header"; if (ambiguous(x.h)) continue; } // anything else is a web request there
        x.want = admitted(x.h); x.want ? adm++ : ref++; label(x.kind); t += "; " + x.kind + (x.want ? " +" : " -"); if (conc) spawn(present(x)); else co_await present(x);
    }
    label("admitted", adm); label("refused", ref); if (n > 1 && ref) nontrivial();
    if (want_sample()) sample(strf("%zu keys, %d presentations%s%s", keys.size(), n, conc ? " at once" : "", t.c_str()));
}
void prop_case() {
    sim_profile(); W.on_connect = [](SockP s) -> ConnectPlan { fail("a connection to %s is made although nobody requested one", ipstr(dst_ip(s)).c_str()); }; W.on_dgram = [](SockP, Bytes) { fail("a DNS query is sent although nobody asked for a name"); };
    spawn(history());
}
void prop_setup() {
    mode = 2 + G.below(2); int n = G.one({1, 0, 2, 3, 5, 12, 40, 120}); size_t sz = 4; 
    for (int i = 0; i < n; i++) { std::string k; if (!keys.empty() && G.chance(1, 2)) { const std::string &b = keys[G.below(keys.size())]; size_t o = G.below(b.size()); k = b.substr(o, 1 + G.below(b.size() - o)); if (G.coin()) k = gen_key().substr(0, 3) + k; } else k = gen_key();
        bool bad = false; for (size_t j = 0; j < k.size(); j++) if ((k[j] & 0x80) && !((unsigned char)k[j] == 0xc3 && j + 1 < k.size() && (k[j + 1] & 0x80)) && !((unsigned char)k[j] == 0xa9 && j && (k[j - 1] & 0x80))) bad = true; if (bad) continue;
        if (sz + jq(k).size() + 1 > 4000) break; sz += jq(k).size() + 1; keys.push_back(k); }
    peers_init(); site_build(); sim_case_entry = prop_case; std::string conf = tun_conf(mode, keys).json();
    if (G.coin()) { // the same list written differently, up to the largest file there can be
        std::string f; auto gap = [&f] { if (G.chance(1, 3)) f += G.one<const char *>({" ", "\n", "\r\n", "\t", "  \n"}); }; gap(); f += "[";
        for (size_t i = 0; i < keys.size(); i++) { if (i) f += ","; gap(); std::string q = jq(keys[i]); if (f.size() + q.size() * 6 < 3000) { std::string e; for (size_t j = 0; j < q.size(); j++) { if (q[j] == '\\') { e += q[j]; e += q[++j]; } else if (j && j + 1 < q.size() && !(q[j] & 0x80) && G.chance(1, 8)) e += strf("\\u%04X", (unsigned char)q[j]); else e += q[j]; } q = e; } f += q; gap(); }
        f += "]"; if (G.coin() && f.size() < 4096) { size_t n = G.one<size_t>({4096, 4095, 2049, 4000}); if (f.size() < n) f.insert(G.coin() ? f.size() : G.below(2), Bytes(n - f.size(), ' ')); }
        if (f.size() <= 4096) { sim_set_file("auth.json", f); label(f.size() >= 4095 ? "largest key file" : "other notation"); }
    }
    sim_boot(conf);
}
