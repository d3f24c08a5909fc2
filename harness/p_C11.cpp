// Request targets that try to reach files outside the home directory.
#include "web.h"
#include <cstring>

const char *prop_rule = "a case is a connection (plain or TLS) with 1..5 requests whose targets are built from dot-dot, dot, empty and existing segments, escapes, separators, absolute forms, NUL and control bytes, with padding that puts them at every length up to the head limit, aimed at five secret files next to the home directory; non-trivial when some target, taken as a path, leads out of the home directory or to a secret";
long prop_cases_quick = 12000, prop_cases_thorough = 150000; int prop_batch = 200;

static std::vector<Bytes> secrets; static std::vector<size_t> sizes;
// lexical normalisation
static std::string norm(const std::string &p) {
    std::vector<std::string> v; size_t i = 0; while (i <= p.size()) { size_t j = p.find('/', i); if (j == p.npos) j = p.size(); std::string s = p.substr(i, j - i); i = j + 1; if (s.empty() || s == ".") continue; if (s == "..") { if (!v.empty()) v.pop_back(); } else v.push_back(s); }
    std::string o; for (auto &s : v) o += "/" + s; return o.empty() ? "/" : o;
}
static bool outside(const std::string &p) { std::string h = norm(site_home()), n = norm(p); return n != h && n.compare(0, h.size() + 1, h + "/"); }
static std::string dotdot() { return G.one({"..", "..", "..", "..", "..", "%2e%2e", ".%2e", "...", ". .", "..%00", "..;", "\\..", "..\\", "..%2f..", ".\t."}); }
static std::string slash() { return G.one({"/", "/", "/", "/", "/", "//", "///", "/./", "/.//", "\\", "%2f", "%5c"}); }
static std::string pad(size_t n) { std::string s; int k = G.below(4); while (s.size() < n) s += k == 0 ? "/." : k == 1 ? "/" : k == 2 ? "/sub/deep/../.." : "/l"; s.resize(n > 3 ? n : s.size()); return s; }
static std::string target() {
    static const char *tails[] = {"secret.txt", "www2/secret.txt", "www.bak/index.html", "wwwsecret.txt", "www.bak/", "config/config.json", "auth.json", "key.pem", "../s5/secret.txt"};
    std::string t;
    if (G.chance(1, 10)) t = G.one({"secret.txt", "2/secret.txt", ".bak/index.html", "../secret.txt", "?/../secret.txt", ".bak/"});   // appended to the home directory without a slash
    else {
        int dirs = 0;
        if (G.chance(1, 3)) { t += G.one({"/sub", "/sub/deep", "/dir.d", "/emptydir", "/nodir", "/a.txt", "/dir.txt"}); dirs = t == "/sub/deep" ? 2 : 1; }
        if (G.chance(1, 3)) { size_t n = G.one({100, 255, 990, 1000, 1010, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1030, 1100, 1500, 1900, 2000, 2047, 2048, 2100, 3000, 3900}); n = n + G.range(-4, 4); t += pad(n); }
        int ups = dirs + (int)G.one({1, 1, 1, 2, 3, 0}); bool uniform = G.chance(2, 3); std::string d = dotdot(), s = slash(); if (uniform && G.chance(2, 3)) { d = ".."; s = "/"; }
        for (int i = 0; i < ups; i++) t += (uniform ? s : slash()) + (uniform ? d : dotdot());
        if (t.empty() || t[0] != '/') t = "/" + t;
        t += (uniform ? s : slash()); if (ups > dirs + 1 && G.coin()) t += "s5/";
        t += tails[G.below(9)];
        if (G.chance(1, 12)) t += G.one({"/", "?x", "%00", "/.", "#", "/.."}); if (G.chance(1, 20)) t.resize(G.below(t.size()) + 1);
        if (G.chance(1, 15)) t.insert(G.below(t.size()) + 1, 1, (char)G.one({0, 1, 9, 11, 127, 255}));
        if (G.chance(1, 25)) t = norm(site_home() + t);     // the real absolute name
    }
    if (t.size() > 3950) t = t.substr(0, 200) + t.substr(t.size() - 3700);
    if (G.chance(1, 5)) t = std::string(G.one({"http", "file", "x"})) + "://" + G.one({"h", "..", "../..", "a:80", "a:", ".:."}) + t;
    return t;
}
static Task<> client() {
    bool tls = G.chance(1, 5); StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed"); label(tls ? "tls" : "plain");
    int n = 1 + G.below(5); Bytes all; std::vector<std::string> targets; auto buf = std::make_shared<Bytes>(); bool burst = G.coin();
    for (int i = 0; i < n; i++) {
        int kind; bool legal = G.chance(1, 6); std::string t = legal ? gen_path(kind) : target(); targets.push_back(t); if (outside(site_home() + t)) { nontrivial(); label("leads-out"); } if (t.size() > 1000) label("long");
        Bytes r = G.one({"GET", "GET", "GET", "GET", "POST", "HEAD"}) + Bytes(" ") + t + " HTTP/1.1\r\nConnection: keep-alive\r\n\r\n";
        if (!co_await s->write(r)) break;
        if (!burst) for (;;) { Bytes b = co_await s->read(1 << 16, 300); if (b.empty()) break; all += b; }
        if (s->eof) break;
    }
    if (want_sample()) sample((tls ? "TLS " : "plain ") + quoted(targets[0], 160) + strf(" and %zu more", targets.size() - 1));
    for (;;) { Bytes b = co_await s->read(1 << 16, 300); if (b.empty()) break; all += b; }
    s->close();
    for (size_t k = 0; k < secrets.size(); k++) for (size_t o = 0; o + 24 <= secrets[k].size(); o += 24) CHECK(all.find(secrets[k].substr(o, 24)) == all.npos, "content of a file outside the home directory was sent for %s", quoted(targets.back(), 300).c_str());
    for (size_t z : sizes) CHECK(all.find(strf("Content-Length: %zu\r\n", z)) == all.npos, "the size of a file outside the home directory was sent for %s", quoted(targets.back(), 300).c_str());
    for (auto &p : W.opens) CHECK(!outside(p), "opened %s outside the home directory", quoted(p, 400).c_str());
    if (!W.opens.empty()) label("opened-some");
}
void prop_case() { sim_profile(); spawn(client()); }
void prop_setup() {
    peers_init(); site_build(); int i = 0;
    for (const char *f : {"secret.txt", "wwwsecret.txt", "www2/secret.txt", "www.bak/index.html"}) { Bytes b = site_content(f, 40123 + 7 * i++); sim_set_file(f, b); secrets.push_back(b); sizes.push_back(b.size()); }
    secrets.push_back(TEST_KEY); secrets.push_back("s5_serv_auth_path-marker-abc"); Conf c; c.http = {80}; c.https = {443}; c.home = site_home(); c.keys = {"s5_serv_auth_path-marker-abc"}; sim_case_entry = prop_case; sim_boot(c.json());
}
