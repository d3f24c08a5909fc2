#include "web.h"
#include <cstdlib>
#include <cstring>
#include <limits.h>
#include <sys/stat.h>
#include <strings.h>

static std::vector<std::string> paths; static std::map<std::string, Bytes> content;
std::string site_home() { return sim_base() + "www"; }
const std::vector<std::string> &site_paths() { return paths; }
Bytes site_content(const std::string &name, size_t n) { Rng r(hash_bytes(name.data(), name.size())); Bytes b(n, 0); for (auto &c : b) c = (char)r.next(); return b; }
void site_add(const std::string &p, const Bytes &c) { sim_set_file("www" + p, c); paths.push_back(p); content[p] = c; }
void site_build() {
    site_add("/index.html", site_content("idx", 700)); site_add("/a.txt", "hello world\n"); site_add("/empty.bin", "");
    int i = 0; for (size_t n : {1, 511, 4095, 4096, 4097, 16304, 16343, 16344, 16345, 16384, 16385, 32688, 65536, 100003}) { const char *ext[] = {".html", ".js", ".json", ".png", ".jpg", ".jpeg", ".gif", ".ico", ".css", ".txt", ".htm", ".mp3", ".m3u8", ".ts"}; site_add(strf("/f%d%s", i, ext[i % 14]), site_content(strf("f%d", i), n)); i++; }
    site_add("/noext", site_content("noext", 33)); site_add("/odd.xyz", site_content("xyz", 900)); site_add("/dir.d/noext", site_content("dn", 20)); site_add("/dir.d/index.html", site_content("dix", 120));
    site_add("/sub/deep/page.html", site_content("dp", 5000)); site_add("/.hidden", "hid"); site_add("/a.b.c.css", "body{}"); site_add("/with%20esc.txt", "esc"); site_add("/q?x=1.js", "q"); site_add("/UP.HTML", "up"); site_add("/echo2", "e2"); site_add("/ech", "e"); site_add("/~t;v=1,2.txt", "t"); site_add("/trail.", "tr");
    site_add("/..dots.txt", "dd"); site_add("/...", "ddd");
    for (auto f : {"/locked.txt:0", "/dir.d/locked.html:044", "/locked.png:0333"}) { std::string p = f; size_t c = p.find(':'); site_add(p.substr(0, c), site_content(p, 300)); paths.pop_back(); ::chmod((site_home() + p.substr(0, c)).c_str(), strtol(f + c + 1, nullptr, 8)); }
    ::mkdir((site_home() + "/emptydir").c_str(), 0755); ::mkdir((site_home() + "/dir.txt").c_str(), 0755);
    sim_set_file("secret.txt", site_content("secret", 400)); sim_set_file("wwwsecret.txt", site_content("secret2", 400)); sim_set_file("www2/secret.txt", site_content("secret3", 400)); sim_set_file("www.bak/index.html", site_content("secret4", 400));
}
Bytes Req::head() const { Bytes b = method + " " + target + " HTTP/1.1\r\n"; for (auto &h : hdr) b += h.first + ":" + h.second + "\r\n"; return b + "\r\n"; }
std::string Req::brief() const { std::string s = method + " " + (target.size() > 60 ? target.substr(0, 60) + strf("..(%zu)", target.size()) : target) + strf(" [%zu headers%s%s]", hdr.size(), keep ? ", keep-alive" : "", has_len ? strf(", body %zu", body.size()).c_str() : ""); return s; }
std::string mime_of(const std::string &p) {
    static const std::map<std::string, std::string> m = {{".html", "text/html"}, {".js", "application/x-javascript"}, {".json", "application/json"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".gif", "image/gif"}, {".ico", "image/x-icon"}, {".css", "text/css"}, {".txt", "text/plain"}, {".htm", "text/html"}, {".mp3", "audio/mpeg"}, {".m3u8", "application/x-mpegURL"}, {".ts", "video/MP2T"}};
    size_t d = p.rfind('.'); if (d == p.npos) return "text/plain"; auto it = m.find(p.substr(d)); return it == m.end() ? "text/plain" : it->second;
}
Expect expect_for(const Req &r) {
    Expect e;
    if (r.path == "/echo" && r.method == "GET") { e.k = Expect::DATE; return e; }
    if (r.path == "/echo" && r.method == "POST") { e.k = Expect::ECHO; e.body = r.body; return e; }
    if (r.method != "GET") { e.k = Expect::ERROR_OR_CLOSE; return e; }
    if (r.path.find("../") != r.path.npos) { e.k = Expect::ERROR_OR_CLOSE; return e; }
    std::string f = site_home() + (r.path.empty() ? "/" : r.path); if (f.back() == '/') f += "index.html";
    struct stat st; if (::stat(f.c_str(), &st) || !S_ISREG(st.st_mode) || !(st.st_mode & S_IRUSR)) return e;
    char rp[PATH_MAX]; if (!::realpath(f.c_str(), rp)) return e; std::string k = rp; char hp[PATH_MAX]; if (!::realpath(site_home().c_str(), hp)) return e; std::string h = hp; if (k.compare(0, h.size() + 1, h + "/")) return e;
    auto it = content.find(k.substr(h.size())); if (it == content.end()) return e;
    e.k = Expect::FILE_; e.body = it->second; e.type = mime_of(f.substr(site_home().size())); return e;
}
std::string gen_path(int &kind) {
    kind = (int)G.weighted({8, 5, 3, 3, 2, 2, 1});
    switch (kind) {
    case 0: return paths[G.below(paths.size())];
    case 1: return "/echo";
    case 2: return G.one({"/", "/locked.txt", "/dir.d/locked.html", "/locked.png", "/dir.d/", "/sub/", "/emptydir/", "/sub/deep/", "/nodir/", "//", "/./"});
    case 3: { std::string p = paths[G.below(paths.size())]; switch (G.below(7)) { case 0: return p + "x"; case 1: p.pop_back(); return p.empty() ? "/" : p; case 2: return "/" + p; case 3: return "/." + p; case 4: return p + "?q=1"; case 5: return p + "/"; default: return "/sub/." + p; } }
    case 4: return G.one({"/sub", "/dir.d", "/emptydir", "/dir.txt", "/sub/deep", "/.", "/..", "/sub/..", "/emptydir/."});
    case 5: { std::string p = "/"; for (int n = 1 + G.below(30); n > 0; n--) { char c = (char)(33 + G.below(94)); p += c; } return p; }
    default: { if (G.coin()) { std::string p = paths[G.below(paths.size())]; size_t n = G.one({100, 250, 500, 511, 512, 900, 1021, 1022, 1023}); while (p.size() + 2 <= n) p = "/." + p; if (p.size() < n) p = "/" + p; if (p.size() < 1024) return p; } size_t n = G.one({200, 256, 300, 1000, 1023, 1024, 1025, 1100, 2000, 2047, 2048, 2100, 3500, 0}); if (!n) n = G.below(3600); std::string p = "/"; bool comp = G.coin(); while (p.size() < n) p += comp && p.size() % 100 == 99 ? "/" : "l"; return p; }
    }
}
Req gen_req(bool keep, int maxbody, bool plain) {
    Req r; int kind; r.method = G.chance(1, 3) ? "POST" : "GET"; r.path = r.method == "POST" && G.chance(3, 4) ? "/echo" : gen_path(kind); r.target = r.path;
    if (!plain && G.chance(1, 6)) {
        std::string host = G.one({"localhost", "h", "www.example.com", "127.0.0.1"}); r.target = std::string(G.one({"http", "https", "h"})) + "://" + host + (G.chance(1, 3) ? strf(":%d", (int)G.one({80, 8080, 1, 65535})) : "") + r.path;
        if (G.chance(1, 8)) { r.target.resize(r.target.size() - r.path.size()); r.path = ""; }
    }
    r.keep = keep;
    auto val = [](const std::string &v) { return std::string(G.one<int>({1, 1, 1, 0, 2, 5}), ' ') + v; };
    auto cased = [](std::string s) { switch (G.below(4)) { case 0: for (auto &c : s) c = toupper(c); break; case 1: for (auto &c : s) c = tolower(c); break; default: break; } return s; };
    std::vector<std::pair<std::string, std::string>> h; if (G.chance(9, 10)) h.push_back({cased("Host"), val("example.com")});
    int n = G.one({0, 1, 2, 5, 12, 16, 20, 40}); 
    for (int i = 0; i < n; i++) {
        std::string k, v;
        switch (G.below(6)) {
        case 0: k = G.one({"C", "Co", "Con", "Cont", "Content", "Content-", "Content-Lengt", "Content-Length2", "Connectio", "Connection-Id", "X-Connection", "Content-Type"}); v = G.one({"Keep-Alive", "12", "close", "K", "99999", ""}); break;
        case 1: k = G.one({"User-Agent", "Accept", "Accept-Encoding", "Accept-Language", "Cookie", "Referer", "Upgrade-Insecure-Requests", "Cache-Control"}); v = "a/b; q=0.9, \"x\": (y) = z"; break;
        case 2: k = strf("X-%d", i); v = ""; break;
        case 3: k = strf("X-%d", i); for (int j = G.below(60); j > 0; j--) v += (char)(33 + G.below(94)); break;
        case 4: k = "!#$%&'*+-.^_`|~09Az"; v = ":: : ,,"; break;
        default: k = strf("X-Long-%d", i); v = Bytes(G.below(200), 'v');
        }
        h.push_back({k, val(v)});
    }
    auto ins = [&](const std::string &k, const std::string &v) { h.insert(h.begin() + G.below(h.size() + 1), {k, v}); };
    if (r.method == "POST" || G.chance(1, 20)) {
        if (G.chance(15, 16)) { size_t bn; switch (G.below(6)) { case 0: bn = G.below(20); break; case 1: bn = 4096 + G.range(-60, 60); break; case 2: bn = maxbody - G.below(50); break; case 3: bn = 0; break; case 4: bn = G.below(400); break; default: bn = G.below(maxbody + 1); } if ((int)bn > maxbody) bn = maxbody; r.body = G.coin() ? G.blob(bn) : Bytes(bn, 'b'); if (bn >= 40 && G.chance(1, 6)) r.body.replace(0, 37, "GET /a.txt HTTP/1.1\r\nHost: evil\r\n\r\nxx"); r.has_len = true; ins(cased("Content-Length"), val(std::to_string(r.body.size()))); }
    }
    if (keep) ins(cased("Connection"), val(cased("Keep-Alive"))); else if (G.chance(1, 4)) ins(cased("Connection"), val(G.one({"close", "Close", "K", "Keep", "upgrade"})));
    r.hdr = h;
    while (r.head().size() > 4096) { bool cut = false; for (size_t i = 0; i < r.hdr.size(); i++) { std::string k = r.hdr[i].first; if (strcasecmp(k.c_str(), "content-length") && strcasecmp(k.c_str(), "connection")) { r.hdr.erase(r.hdr.begin() + i); cut = true; break; } } if (!cut) { r.path.resize(r.path.size() / 2 + 1); r.target = r.path; } }
    if (G.chance(1, 12)) { size_t want = 4096 - G.below(3), have = r.head().size(); if (have + 8 < want) r.hdr.insert(r.hdr.begin(), {"Pad", " " + Bytes(want - have - 7, 'p')}); }
    return r;
}
std::string judge(const Req &r, const Expect &e, const HttpResp &p) {
    bool closed = !p.bad.empty() && p.raw_head.empty() && p.bad.find("ended before") != p.bad.npos;
    if (e.k == Expect::ERROR_OR_CLOSE && closed) return "";
    std::string w = http_head_problem(p); if (!w.empty()) return w;
    const std::string &cn = *p.get("Connection"); bool ka = !strcasecmp(cn.c_str(), "keep-alive");
    if (ka != r.keep) return "Connection: " + cn + (r.keep ? " although the request asked for keep-alive" : " although the request did not ask for keep-alive");
    if (e.k == Expect::ERROR_ || e.k == Expect::ERROR_OR_CLOSE) { if (p.status < 400 || p.status > 599) return strf("status %d for a path that names no regular file", p.status); return ""; }
    if (p.status != 200 || p.reason != "OK") return strf("status %d %s instead of 200 OK", p.status, p.reason.c_str());
    if (e.k == Expect::DATE) { for (int64_t o : W.wall_offs) for (int i = -120; i <= 120; i++) if (p.body == http_date(W.now_ms + o + i * 1000)) return ""; return "the date service returned " + quoted(p.body); }
    if (p.body != e.body) { size_t i = 0; while (i < p.body.size() && i < e.body.size() && p.body[i] == e.body[i]) i++; return strf("body of %zu bytes instead of %zu, first difference at %zu", p.body.size(), e.body.size(), i); }
    if (e.k == Expect::FILE_) { const std::string *t = p.get("Content-Type"); if (!t || *t != e.type) return "Content-Type " + (t ? quoted(*t) : std::string("missing")) + " instead of " + e.type; }
    return "";
}
Task<std::string> answer(StreamP s, std::shared_ptr<Bytes> buf, Req r) {
    Expect e = expect_for(r); HttpResp p = co_await read_response(s, buf); std::string w = judge(r, e, p);
    if (!w.empty()) w = r.brief() + ": " + w;
    co_return w;
}
Task<StreamP> web_connect(int port, bool tls) {
    SockP k = dial(port); if (!k) fail("nothing listens on port %d", port);
    auto c = std::make_shared<Conn>(k); if (!tls) co_return std::make_shared<Stream>(c);
    auto t = std::make_shared<TlsStream>(c, tls_client_ctx(), false); bool ok = co_await t->handshake(); if (!ok) co_return StreamP(); co_return StreamP(t);
}
