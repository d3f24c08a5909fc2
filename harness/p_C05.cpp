// Reuse of resolved addresses against a model of answers and their life times.
#include "tun.h"

const char *prop_rule = "a case is 3..14 CONNECTs over 1..4 names at drawn times (gaps from nothing to hours, and aimed at the expiry of earlier answers), sometimes overlapping, each query answered with a fresh address and a drawn TTL (0, seconds, around the sweep period, around three hours, around 2^31 and 2^32 ms, up to 2^32-1 s) or with a failure; one case in 300 asks for one or two names 270 times, each time after the answer has expired, and then again at once; one case in 150 has 50..249 names, all asked for and then asked for again; non-trivial when some request followed an earlier answer for its name";
long prop_cases_quick = 5000, prop_cases_thorough = 100000; int prop_batch = 100;
static int mode; static uint32_t ipn; static bool many, renew; static int nth;
struct Ans { uint32_t ip, ttl; bool good, sent = false, used = false; uint64_t at = 0, lo = 0, hi = 0; };    // expiry lies between lo and hi
struct Name { std::string n; std::vector<std::shared_ptr<Ans>> ans; int open = 0; bool overlap = false; };
struct ReqS { int i; Name *n; bool dialled = false; };
static std::vector<Name> names; static std::map<int, std::shared_ptr<ReqS>> reqs; static const uint64_t TTL_CAP = 10800;

static uint32_t gen_ttl() { if (renew) return nth < 270 ? 1 : 300; return G.weighted({3, 1}) == 0 ? G.one<uint32_t>({1, 2, 5, 29, 30, 31, 60, 300, 0}) : G.one<uint32_t>({10799, 10800, 10801, 86400, 2147483, 2147484, 4294967, 4294968, 4300000, 0x7fffffff, 0x80000000u, 0xffffffffu, (uint32_t)G.any64()}); }
static Task<> request(std::shared_ptr<ReqS> R) {
    StreamP s = co_await web_connect(mode == 2 ? TUN_PORT : 443, true); CHECK(s, "TLS handshake failed"); co_await s->write(auth_header("key")); co_await s->write(socks_greeting());
    Bytes r = co_await s->read_exact(2); CHECK(r == Bytes("\5\0", 2), "greeting refused");
    Name *n = R->n; if (n->open++) n->overlap = true; reqs[1000 + R->i] = R;
    co_await s->write(socks_connect_name(n->n, 1000 + R->i)); r = co_await s->read_exact(10);
    if (R->dialled) CHECK(r.size() == 10, "request %d: connected but reported as failed", R->i);
    else { bool found = false; for (auto &a : n->ans) if (a->sent && !a->good && !a->used) { a->used = found = true; break; } CHECK(r.empty() && found, "request %d for %s: %s", R->i, quoted(n->n, 30).c_str(), r.empty() ? "disconnected although no lookup failed" : "success without a connection"); }
    s->close(); if (!--n->open) { bool any = false; for (auto &a : n->ans) any |= a->good && a->ttl && a->hi > W.now_ms; n->overlap = n->overlap && any; }
}
static Task<> answer_later(SockP s, Bytes b, std::shared_ptr<Ans> a, uint64_t d) { if (d) co_await sleep_ms(d); a->at = W.now_ms; a->sent = true; dns_send(s, b); }
static Task<> driver() {
    int k = renew ? 280 : many ? 2 * (int)names.size() : 3 + G.below(12); std::vector<std::shared_ptr<ReqS>> all;
    for (int i = 0; i < k; i++) {
        auto R = std::make_shared<ReqS>(); R->i = i; R->n = many && i < (int)names.size() ? &names[i] : &names[G.below(names.size())]; all.push_back(R);
        uint64_t gap = 0; nth = i; if (renew) { gap = i < 270 ? 1001 + G.below(300) : 0; } else if (!many || G.chance(1, 40)) switch (G.below(many ? 3 : 6)) { case 0: break; case 1: gap = G.below(3000); break; case 2: gap = G.one<uint64_t>({29000, 30000, 31000, 60000, 95000}); break; case 3: gap = G.below(4 * 3600 * 1000); break;
            default: { std::vector<Ans> v; for (auto &m : names) for (auto &a : m.ans) if (a->good && a->used && a->hi > W.now_ms) v.push_back(*a); if (!v.empty()) { auto &a = v[G.below(v.size())]; int64_t g = (int64_t)(a.hi - W.now_ms) + G.one<int64_t>({-2000, -20, -3, -1, 1, 2, 30, 1000, 29000, 40000}); gap = g > 0 ? g : 0; } } }
        if (gap) co_await sleep_ms(gap);
        if (!renew && G.chance(1, 5)) spawn(request(R)); else co_await request(R);
    }
}
void prop_case() {
    W.seg = 0; W.preempt = 0; W.creep = 0; W.ev_first = G.one({2, 4}); ipn = 0; reqs.clear(); names.clear(); many = G.chance(1, 150); renew = !many && G.chance(1, 300); if (renew) label("renewed again and again"); names.reserve(256); names.resize(many ? 50 + G.below(200) : renew ? 1 + G.below(2) : 1 + G.below(4)); if (many) label("many names");
    for (size_t i = 0; i < names.size(); i++) { auto &n = names[i]; if (many) { n.n = strf("m%d.%s", (int)i, i % 3 ? "test" : "a-longer-name.example.org"); continue; } for (;;) { n.n = i && G.chance(1, 2) ? names[0].n + (G.coin() ? "x" : ".org") : G.chance(1, 4) ? gen_name() : strf("h%d.test", (int)G.below(500)); if (n.n.size() > 253) n.n = n.n.substr(4); if (n.n[0] == '.') n.n[0] = 'k'; size_t run = 0, mx = 0; for (char c : n.n) { run = c == '.' ? 0 : run + 1; mx = std::max(mx, run); } if (mx > 63) n.n = strf("g%d.test", (int)i); bool dup = false; for (size_t j = 0; j < i; j++) { std::string x = names[j].n, y = n.n; for (auto &c : x) c = tolower(c); for (auto &c : y) c = tolower(c); dup |= x == y; } if (!dup) break; n.n = strf("dup%d.test", (int)i); break; } }
    W.on_dgram = [](SockP s, Bytes b) {
        DnsQ q = dns_parse_query(b); CHECK(q.ok, "malformed query"); Name *n = nullptr; for (auto &m : names) if (m.n == q.name) n = &m; CHECK(n, "a query for %s", quoted(q.name, 40).c_str());
        int open = 0, waiting = 0; for (auto &r : reqs) if (r.second->n == n && !r.second->dialled) open++; for (auto &a : n->ans) { if (!a->used) waiting++; else if (!a->good) open--; } CHECK(waiting < open, "a query for %s that no request needs", quoted(q.name, 40).c_str());
        auto A = std::make_shared<Ans>(); A->ttl = gen_ttl(); A->ip = ++ipn * 2654435761u; A->good = renew || !G.chance(1, 10); uint64_t now = W.now_ms;
        for (auto &a : n->ans) if (a->good && a->used && a->ttl) { if (!n->overlap && now < a->lo) fail("%s: a new query is sent although an answer with TTL %u still has %lu ms to live", quoted(q.name, 30).c_str(), a->ttl, (unsigned long)(a->lo - now)); nontrivial(); label("queried again"); }
        n->ans.push_back(A); if (want_sample()) sample(strf("t=%lu query for %s -> TTL %u", (unsigned long)(now - 1700000000000ULL), quoted(q.name, 30).c_str(), A->ttl));
        Bytes rep = A->good ? dns_a_reply(q, A->ip, A->ttl) : dns_header(q.id, 0x8183, 1, 0, 0, 0) + q.question; spawn(answer_later(s, rep, A, G.chance(1, 4) ? G.below(2000) : 0), true);
    };
    W.on_connect = [](SockP s) {
        uint32_t ip = dst_ip(s); auto it = reqs.find(dst_port(s)); CHECK(it != reqs.end(), "connection to an unrequested port %d", dst_port(s)); ReqS &R = *it->second; CHECK(!R.dialled, "two connections for one request"); R.dialled = true; uint64_t now = W.now_ms; Name *n = R.n;
        for (auto &a : n->ans) if (a->ip == ip) {
            CHECK(a->sent && a->good, "request %d connects to an address that was not given", R.i); uint64_t life = std::min<uint64_t>(a->ttl, TTL_CAP) * 1000;
            if (!a->used) { a->used = true; a->lo = a->at + life; a->hi = now + life; label("fresh"); return ConnectPlan(); }
            nontrivial(); CHECK(a->ttl, "request %d for %s: an address learned with TTL 0 is reused", R.i, quoted(n->n, 30).c_str());
            CHECK(now <= a->hi, "request %d for %s: the address learned with TTL %u is used %lu ms after its expiry", R.i, quoted(n->n, 30).c_str(), a->ttl, (unsigned long)(now - a->hi)); label("reused"); return ConnectPlan();
        }
        for (auto &m : names) for (auto &a : m.ans) if (a->ip == ip) fail("request %d for %s connects to the address of %s", R.i, quoted(n->n, 30).c_str(), quoted(m.n, 30).c_str());
        fail("request %d connects to %s, which no answer gave", R.i, ipstr(ip).c_str());
    };
    spawn(driver());
}
void prop_setup() { mode = 2 + G.below(2); peers_init(); site_build(); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json()); }
