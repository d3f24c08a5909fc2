// Resolution of host names: the query that is sent, and what is made of replies.
#include "tun.h"

const char *prop_rule = "a case is 1..3 concurrent CONNECTs by different valid names, each answered by a reply built from a record grammar (0..4, seldom up to 80, other records and CNAME chains before, between and after A records, all owner-name encodings, authority and additional records with addresses of their own), by one of its truncations or byte/field corruptions, by a datagram from elsewhere followed by the reply, late, or never, with send failures; non-trivial when a reply with at least one answer record reached the program";
long prop_cases_quick = 10000, prop_cases_thorough = 150000; int prop_batch = 100;
static int mode; static std::string gw; static uint32_t gwip; static uint32_t ipn;
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
struct Look { std::string name; int port; int queries = 0; bool answered = false; int plan; bool may = false, must = false; uint32_t want = 0; std::string desc; uint64_t delay = 0, asked = 0; };
typedef std::shared_ptr<Look> LookP; static std::vector<LookP> looks;

static uint32_t fresh_ip() { return 0x0b000000 + (ipn++ << 8) + G.below(250); }
// Reference reader: the first IN A record of the answer section, or nothing.
static bool ref(const Bytes &b, uint32_t &ip) {
    auto u8 = [&](size_t i) { return (unsigned)(unsigned char)b[i]; }; auto u16 = [&](size_t i) { return u8(i) << 8 | u8(i + 1); };
    if (b.size() < 12) return false; size_t p = 12; int qd = u16(4), an = u16(6);
    auto name = [&]() -> bool { for (;;) { if (p >= b.size()) return false; unsigned l = u8(p); if ((l & 0xc0) == 0xc0) { if (p + 2 > b.size()) return false; p += 2; return true; } if (l & 0xc0) return false; p += 1 + l; if (!l) return true; } };
    if (qd != 1) return false;
    if (!name()) return false; p += 4; if (p > b.size()) return false;
    for (int i = 0; i < an; i++) { if (!name() || p + 10 > b.size()) return false; unsigned t = u16(p), c = u16(p + 2), l = u16(p + 8); p += 10; if (p + l > b.size()) return false; if (t == 1 && c == 1 && l == 4) { ip = u8(p) << 24 | u8(p + 1) << 16 | u8(p + 2) << 8 | u8(p + 3); return true; } p += l; }
    return false;
}
static Bytes owner(const DnsQ &q, const std::vector<size_t> &offs) {   // some encoding of a name
    switch (G.below(6)) {
    case 0: case 1: return Bytes("\xc0\x0c", 2);
    case 2: return dns_name(q.name);
    case 3: { size_t o = offs[G.below(offs.size())]; return be16(0xc000 | (unsigned)o); }
    case 4: { Bytes r; for (int k = 1 + G.below(2); k > 0; k--) { Bytes l = G.blob(1 + G.below(G.chance(1, 6) ? 63 : 8)); r += (char)l.size(); r += l; } return r + be16(0xc000 | (unsigned)offs[G.below(offs.size())]); }
    default: return G.coin() ? dns_name(gen_name()).substr(0, 200).size() < 200 ? dns_name("x." + std::string(1 + G.below(60), 'n') + ".example") : dns_name("a.root-servers.net") : Bytes(1, 0);
    }
}
static Bytes other_rr(const DnsQ &q, std::vector<size_t> &offs, size_t at) {
    Bytes o = owner(q, offs), rd; int t; uint32_t ttl = G.coin() ? G.below(10000) : (uint32_t)G.any64();
    switch (G.below(7)) {
    case 0: case 1: case 2: t = 5; rd = G.coin() ? dns_name("c" + std::to_string(G.below(100)) + ".cdn.example") : Bytes("\3alt", 4) + be16(0xc000 | (unsigned)offs[G.below(offs.size())]); if (at + o.size() + 10 < 0x3fff) offs.push_back(at + o.size() + 10); break;
    case 3: t = 28; rd = G.blob(16); break;
    case 4: t = G.one({2, 12, 39}); rd = owner(q, offs); break;
    case 5: t = 15; rd = be16(10) + owner(q, offs); break;
    default: t = G.one({16, 46, 6, 33, 257, 65, 65280, 0x0100, 0x0101}); rd = G.blob(G.one<size_t>({0, 1, 3, 4, 5, 60, 0})); if (G.chance(1, 4)) rd = be32(fresh_ip());
    }
    return dns_rr(o, t, G.chance(1, 12) ? G.one({3, 4, 255, 0}) : 1, ttl, rd);
}
static Bytes build(const DnsQ &q, std::string &desc, int &a_n, size_t &an_end) {
    Bytes r; std::vector<size_t> offs{12}; for (size_t i = 0, p = 12; i < q.name.size(); i++) if (q.name[i] == '.') offs.push_back(p + i + 1);
    size_t base = 12 + q.question.size(); int an = 0, ns = 0, ar = 0; a_n = 0; auto full = [&] { return base + r.size() > 1000; };
    if (G.chance(1, 12)) { label("many records"); for (int k = G.one({15, 16, 17, 31, 32, 33, 63, 64, (int)G.below(80)}); k > 0 && !full(); k--) { r += dns_rr(Bytes("\xc0\x0c", 2), G.one({16, 5, 28, 46}), 1, 60, G.blob(G.below(3))); an++; } desc += 'm'; }
    int before = G.one({0, 0, 1, 1, 2, 4}); for (int i = 0; i < before && !full(); i++) { r += other_rr(q, offs, base + r.size()); an++; desc += 'o'; }
    int as = G.one({1, 1, 1, 2, 4, 0, 0}); for (int i = 0; i < as && !full(); i++) { r += dns_rr(owner(q, offs), 1, 1, G.one<uint32_t>({60, 0, 1, 300, 0x7fffffff, 0xffffffff}), be32(fresh_ip())); an++; a_n++; desc += 'A'; if (G.chance(1, 4) && !full()) { r += other_rr(q, offs, base + r.size()); an++; desc += 'o'; } }
    an_end = base + r.size();
    if (G.chance(1, 3)) { int k = 1 + G.below(2); for (int i = 0; i < k && !full(); i++) { r += G.coin() ? other_rr(q, offs, base + r.size()) : dns_rr(owner(q, offs), 1, 1, 60, be32(fresh_ip())); ns++; desc += 'n'; } }
    if (G.chance(1, 3)) { int k = 1 + G.below(3); for (int i = 0; i < k && !full(); i++) { r += G.coin() ? dns_rr(owner(q, offs), 1, 1, 60, be32(fresh_ip())) : other_rr(q, offs, base + r.size()); ar++; desc += 'x'; } }
    unsigned fl = a_n || G.coin() ? G.one({0x8180, 0x8580, 0x8100, 0x81a0}) : G.one({0x8183, 0x8182, 0x8185});
    return dns_header(q.id, fl, 1, an, ns, ar) + q.question + r;
}
static void expect_host(uint32_t ip, int port) { if (!hosts.count(hkey(ip, port))) hosts[hkey(ip, port)] = Host(); }
// datagrams that are not the reply: from another address (any content), or the resolver's late reply to another query
static void noise(SockP s, const DnsQ &q) {
    extern void sim_wake_dgram(SockP); if (!s->open) return; auto from = s->dst; Bytes f; DnsQ o = q; int k = G.below(6);
    if (k < 4) { if (G.coin()) from.sin_addr.s_addr ^= htonl(1 + G.below(255)); else from.sin_port = htons(G.one({5353, 54, 1024, 0x3500})); f = k == 0 ? Bytes() : k == 1 ? G.blob(G.below(100)) : k == 2 ? dns_a_reply(q, 0x42420000 + G.below(65536), 600) : Bytes(G.below(1600), (char)G.below(256)); label(k ? "stranger" : "stranger-empty"); }
    else if (k == 4) { o.name = G.coin() ? "other.example" : std::string(q.name.size(), 'z'); if (G.coin() && q.name.size() > 1 && q.name[0] != '.') { o.name = q.name; size_t i = G.coin() ? q.name.size() - 1 - G.below(std::min<size_t>(q.name.size(), 3)) : G.below(q.name.size()); if (o.name[i] == '.') i = 0; o.name[i] = tolower(o.name[i]) == 'q' ? 'r' : 'q'; } if (!strcasecmp(o.name.c_str(), q.name.c_str())) o.name += "x"; o.question = dns_name(o.name) + be16(1) + be16(1); f = dns_a_reply(o, 0x44440000 + G.below(65536), 600); label("late-other-name"); }
    else { o.id = q.id ^ (1 << G.below(16)); f = dns_a_reply(o, 0x45450000 + G.below(65536), 600); label("other-id"); }
    s->dq.push_back({f, from}); sim_wake_dgram(s);
}
static Task<> noisy(SockP s, DnsQ q, LookP L) { // no reply, but other datagrams all the time
    uint64_t t0 = W.now_ms; while (s->open && W.now_ms - t0 < 40000) { noise(s, q); co_await sleep_ms(G.chance(1, 3) ? 1 + G.below(200) : 500 + G.below(4200)); }
    CHECK(W.now_ms - t0 < 40000, "the wait for a reply is prolonged by other datagrams"); nontrivial();
}
static Task<> responder(SockP s, LookP L, DnsQ q) {
    if (L->plan == 7) { for (int i = 1 + G.below(4); i > 0; i--) { noise(s, q); if (G.coin()) co_await sleep_ms(G.below(900)); } }
    else if (L->delay) co_await sleep_ms(L->delay);
    std::string d; int a_n; size_t an_end; Bytes r = build(q, d, a_n, an_end); uint32_t ip; bool has = ref(r, ip);
    if (has != (a_n > 0)) fail("harness: reference reader disagrees with the generator (%s)", hex(r).c_str());
    if (L->plan == 1) { d += " cut"; size_t n = G.coin() ? G.below(r.size()) : an_end - std::min<size_t>(an_end, 1 + G.below(20)); if (n > r.size()) n = r.size(); r.resize(n); }
    else if (L->plan == 2) { d += " corrupted"; int k = 1 + G.below(2); for (int i = 0; i < k; i++) switch (G.below(4)) {
        case 0: r[G.below(r.size())] = (char)G.one<int>({0, 255, 0xc0, 0x3f, 0x40, 0x80, (int)G.below(256)}); break;
        case 1: { size_t f = 4 + 2 * G.below(4); unsigned v = G.one<unsigned>({0, 1, 2, 255, 256, 65535}); r[f] = (char)(v >> 8); r[f + 1] = (char)v; break; }
        case 2: { size_t base = 12 + q.question.size(); if (r.size() > base) { size_t o = base + G.below(r.size() - base); r[o] = (char)G.below(256); } break; }
        default: { size_t o = G.below(r.size()), n = std::min<size_t>(1 + G.below(6), r.size() - o); if (G.coin()) r.erase(o, n); else r.insert(o, G.blob(n)); } } }
    L->desc = d; if (L->plan == 4) { // somebody else's datagram first
        Bytes f = dns_a_reply(q, 0x42420000 + G.below(65536), 600); auto from = s->dst; if (G.coin()) from.sin_addr.s_addr ^= htonl(1 + G.below(255)); else from.sin_port = htons(5353); extern void sim_wake_dgram(SockP); if (s->open) { s->dq.push_back({f, from}); sim_wake_dgram(s); } if (G.coin()) co_await sleep_ms(G.below(1000)); }
    if (L->plan == 1 || L->plan == 2) { has = ref(r, ip); L->may = has; } else L->may = L->must = has;
    if (has) { L->want = ip; expect_host(ip, L->port); } if (r.size() > 1400) { L->must = false; }
    L->answered = s->open; if (L->answered && !d.empty()) nontrivial(); dns_send(s, r); if (L->plan == 5) { co_await sleep_ms(G.below(3)); dns_send(s, dns_a_reply(q, 0x43434343, 60)); }
}
static Task<> client(LookP L) {
    StreamP s = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); CHECK(s, "TLS handshake failed"); co_await s->write(auth_header("key")); co_await s->write(socks_greeting());
    Bytes r = co_await s->read_exact(2); CHECK(r == Bytes("\5\0", 2), "greeting answered with %s", hex(r).c_str());
    if (G.chance(1, 4)) co_await s->nap(G.below(3000));
    co_await s->write(socks_connect_name(L->name, L->port)); uint64_t t0 = W.now_ms;
    r = co_await s->read_exact(10);
    if (L->plan != 6) CHECK(L->queries == 1, "%d queries were sent for one request", L->queries);
    const char *pl[] = {"intact", "truncated", "corrupted", "missing", "preceded by a datagram from another address", "followed by another", "never sent for", "preceded by other datagrams", "missing, with other datagrams"};
    if (L->must) { CHECK(r.size() == 10 && r[1] == 0, "the name's reply (%s, %s) has an address, but the client got %s", pl[L->plan], L->desc.c_str(), r.empty() ? "disconnected" : hex(r).c_str()); }
    if (!L->may) { CHECK(r.empty() && s->eof, "the reply (%s, %s) gives no address, but the client got %s", pl[L->plan], L->desc.c_str(), hex(r).c_str()); }
    if (r.size() == 10) CHECK(hosts[hkey(L->want, L->port)].dials >= 1, "success without a connection to %s", ipstr(L->want).c_str());
    if (L->plan == 3 || L->plan == 8) CHECK(W.now_ms - L->asked < 8000, "the client was disconnected %lu ms after a query without a reply", (unsigned long)(W.now_ms - L->asked));
    CHECK(W.now_ms - t0 < 16000, "resolving took %lu ms", (unsigned long)(W.now_ms - t0)); label(strf("plan %d %s", L->plan, L->must ? "address" : L->may ? "maybe" : "none")); s->close();
}
void prop_case() {
    sim_profile(); hosts_install(); ipn = 0; looks.clear(); std::set<std::string> used;
    for (int i = 1 + (G.chance(1, 3) ? G.below(3) : 0); i > 0; i--) {
        auto L = std::make_shared<Look>(); L->name = gen_name(); while (used.count(lower(L->name))) L->name = strf("u%d.test", i); used.insert(lower(L->name)); if (G.chance(1, 15)) L->name += "."; L->port = 1000 * i + G.below(1000);
        L->plan = G.weighted({8, 4, 5, 1, 2, 1, 1, 4, 1}); L->delay = G.chance(1, 4) ? G.one<uint64_t>({1, 100, 3000, 4500}) : 0; looks.push_back(L);
        if (want_sample()) sample(strf("name %s, plan %d, reply after %lu ms", quoted(L->name, 40).c_str(), L->plan, (unsigned long)L->delay));
    }
    W.on_dgram = [](SockP s, Bytes b) {
        CHECK(dst_ip(s) == gwip && dst_port(s) == 53, "query sent to %s:%d", ipstr(dst_ip(s)).c_str(), dst_port(s));
        DnsQ q = dns_parse_query(b); CHECK(q.ok, "malformed query (%s): %s", q.why.c_str(), hex(b).c_str()); LookP L; for (auto &x : looks) { std::string n = x->name; if (n.back() == '.') n.pop_back(); if (lower(n) == lower(q.name)) L = x; }
        CHECK(L, "query for %s, which nobody asked for", quoted(q.name, 80).c_str()); CHECK(q.qtype == 1 && q.qclass == 1 && q.rd, "query type %d class %d recursion %d", q.qtype, q.qclass, q.rd); L->queries++;
        L->asked = W.now_ms; if (L->plan == 8) spawn(noisy(s, q, L), true); else if (L->plan != 3) spawn(responder(s, L, q), true);
    };
    int sends = 0; for (auto &L : looks) if (L->plan == 6) sends++;
    if (sends == (int)looks.size()) { int e = G.one({11, 1, 101, 105}); int k = 0; W.fault = [e, k](const char *op) mutable { if (strcmp(op, "sendto")) return 0; k++; return e; }; } else for (auto &L : looks) if (L->plan == 6) L->plan = 0;
    for (auto &L : looks) spawn(client(L));
}
void prop_setup() { mode = 2 + G.below(2); bool def = G.chance(1, 4); gw = def ? "" : "9.9.9.9"; gwip = def ? 0x08080808 : 0x09090909; peers_init(); site_build(); sim_case_entry = prop_case; Conf c = tun_conf(mode); c.gw = gw; sim_boot(c.json()); }
