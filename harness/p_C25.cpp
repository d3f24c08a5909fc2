// Configuration files: settings as written, ports and roles, and harmless oddities.
#include "peers.h"
#include "shim.h"
#include <algorithm>
#include <cstring>

const char *prop_rule = "a case is a configuration file (all 17 settings present, absent or, in odd cases, of another type; strings of 0..400 bytes; port lists of 0..200 entries; broken JSON) and a key file, parsed or booted; non-trivial when the file was well-typed with at least 8 settings, or odd with at least one setting of a wrong type, too long a list or broken text";
long prop_cases_quick = 10000, prop_cases_thorough = 150000; int prop_batch = 100;

struct Num { const char *k; long long def; bool port; }; struct Str { const char *k; size_t lim; };
static const Num NUMS[] = {{"sys_daemon", 0, false}, {"sys_process", 0, false}, {"sys_log_level", 0xff, false}, {"s5_mode", 0, false}, {"s5_serv_port", 0, true}, {"s5_local_port", 0, true}, {"s5_local_serv_port", 0, true}};
static const Str STRS[] = {{"ssl_crt_path", 0}, {"ssl_key_path", 0}, {"s5_serv_auth_path", 0}, {"s5_serv_gw", 31}, {"s5_local_serv_ip", 16}, {"s5_local_auth", 32}, {"http_home", 0}, {"http_index", 0}};
static bool boot, odd; static std::string text; static int odds, present;
static std::map<std::string, long long> en; static std::map<std::string, std::string> es; static std::vector<int> eh[2]; static bool hk[2]; static bool broken;
static Conf cf; static std::string keyfile; static bool keys_ok; static std::set<std::string> bad;

static std::string wrong(int not_kind) { // a value of another type
    for (;;) switch (G.below(9)) {
    case 0: return "null"; case 1: return "true"; case 2: return "{\"a\":1}"; case 3: return "[]"; case 4: if (not_kind != 0) return "12"; return "\"12\"";
    case 5: if (not_kind != 1) return "\"x\""; return "-1"; case 6: return "[\"a\",null,{}]"; case 7: return "1e400"; default: return "{}";
    }
}
static std::string sval(size_t lim) {
    size_t n; switch (G.below(4)) { case 0: n = G.below(12); break; case 1: n = lim + G.range(-3, 4); break; case 2: n = G.below(lim + 150); break; default: n = 1 + G.below(30); }
    std::string s; for (size_t i = 0; i < n; i++) s += (char)(G.chance(1, 30) ? G.one<int>({'"', '\\', 0xc3, 1, ' ', '/'}) : 'a' + (i * 7 + n) % 26); return s;
}
static void gen() {
    std::vector<std::pair<std::string, std::string>> kv;
    auto put = [&](const std::string &k, const std::string &v) { kv.push_back({k, v}); present++; };
    auto oddhere = [&](const char *k) { if (odd && G.chance(1, 5)) { odds++; bad.insert(k); return true; } return false; };
    // settings the mode has no use for may be left out
    auto spare = [&](const std::string &k) { if (!boot || k.compare(0, 3, "s5_") || k == "s5_mode") return false; bool client = !k.compare(0, 9, "s5_local_"); bool used = client ? cf.mode == 1 : k == "s5_serv_port" ? cf.mode == 2 : cf.mode >= 2; return !used && G.coin(); };
    for (auto &n : NUMS) {
        en[n.k] = n.def; long long v; if (!boot && G.chance(1, 5)) continue;
        std::string k = n.k; if (boot && (k == "sys_daemon" || k == "sys_process")) { en[k] = 0; if (!G.chance(1, 4)) put(k, k == "sys_daemon" && G.coin() ? "false" : "0"); continue; }
        if (spare(k)) continue; if (oddhere(n.k)) { put(k, wrong(0)); continue; }
        if (k == "sys_daemon" && G.coin()) { en[k] = G.below(2); put(k, en[k] ? "true" : "false"); continue; }
        if (boot) v = k == "s5_mode" ? cf.mode : k == "s5_serv_port" ? cf.serv_port : k == "s5_local_port" ? cf.local_port : k == "s5_local_serv_port" ? cf.local_serv_port : (long long)G.below(3);
        else v = n.port ? (long long)G.one<int>({8080, 0, 1, 65535, 32768, 443}) : k == "s5_mode" ? (long long)G.below(4) : (long long)G.one<int>({0, 1, 2, 5, 255, 100000, -1});
        en[k] = v; put(k, !boot && G.chance(1, 8) ? strf("%lld.0", v) : std::to_string(v));
    }
    for (auto &s : STRS) {
        es[s.k] = ""; size_t lim = s.lim ? s.lim : (size_t)sh_path_max(); std::string k = s.k, v;
        if (spare(k)) continue; if (oddhere(s.k)) { put(k, wrong(1)); continue; }
        if (boot) v = k == "ssl_crt_path" ? sim_base() + "crt.pem" : k == "ssl_key_path" ? sim_base() + "key.pem" : k == "s5_serv_auth_path" ? sim_base() + "auth.json" : k == "s5_serv_gw" ? cf.gw : k == "s5_local_serv_ip" ? cf.local_ip : k == "s5_local_auth" ? cf.local_auth : k == "http_home" ? sim_base() + "www" : "index.html";
        else { if (G.chance(1, 5)) continue; v = sval(lim); }
        es[k] = v.substr(0, lim); put(k, jq(v));
    }
    for (int i = 0; i < 2; i++) {
        const char *k = i ? "https_arr" : "http_arr"; if (!boot && G.chance(1, 6)) continue;
        if (oddhere(k)) {
            if (G.coin()) { put(k, wrong(2)); hk[i] = false; eh[i].clear(); hk[i] = true; bad.insert(k); continue; }
            std::string a = "["; int n = 65 + G.below(140); for (int j = 0; j < n; j++) a += (j ? "," : "") + std::to_string(1000 + j); put(k, a + "]"); bad.insert(k); continue;
        }
        if (boot && (i ? cf.https : cf.http).empty() && G.coin()) continue;
        if (boot) eh[i] = i ? cf.https : cf.http; else { int n = G.one({0, 1, 3, 64, 63}); for (int j = 0; j < n; j++) eh[i].push_back(G.below(65536)); }
        std::string a = "["; for (size_t j = 0; j < eh[i].size(); j++) a += (j ? "," : "") + std::to_string(eh[i][j]); put(k, a + "]");
    }
    if (G.chance(1, 3)) kv.push_back({"comment", "{\"http_home\":[1,2,{}]}"});
    if (G.chance(1, 30)) { kv.push_back({"notes", jq(std::string(G.one<int>({3000, 20000, 70000, 300000}) + G.below(50), 'n'))}); label("long file"); }
    for (size_t i = 0; i + 1 < kv.size(); i++) if (G.chance(1, 4)) std::swap(kv[i], kv[i + G.below(kv.size() - i)]);
    const char *nl = G.one({"", "\n", " \r\n\t"}); text = "{"; for (size_t i = 0; i < kv.size(); i++) text += std::string(i ? "," : "") + nl + jq(kv[i].first) + (G.coin() ? ":" : " : ") + kv[i].second; text += std::string(nl) + "}" + nl;
    if (odd && G.chance(1, 3)) {
        odds++; broken = true;
        switch (G.below(6)) { case 0: text.resize(G.below(text.size())); break; case 1: text = ""; break; case 2: text = G.rbytes(G.below(40)); break; case 3: text[G.below(text.size())] = (char)G.below(256); break; case 4: text = G.one({"null", "[]", "3", "\"x\"", "{", "[[[[", "{\"http_arr\":3}", "[1,2,3]"}); break; default: text = Bytes(2000, '['); }
    }
}
static void settings() {
    if (broken) return;
    for (auto &n : en) if (!bad.count(n.first)) CHECK(sh_cfg_num(n.first.c_str()) == n.second, "setting %s is %lld, the file says %lld", n.first.c_str(), sh_cfg_num(n.first.c_str()), n.second);
    for (auto &s : es) if (!bad.count(s.first)) CHECK(s.second == sh_cfg_str(s.first.c_str()), "setting %s is %s, the file says %s", s.first.c_str(), quoted(sh_cfg_str(s.first.c_str()), 300).c_str(), quoted(s.second, 300).c_str());
    for (int i = 0; i < 2; i++) {
        std::vector<int> p(sh_open_port_max()); int n = sh_cfg_ports(i, p.data(), p.size());
        CHECK(n >= 0 && n <= sh_open_port_max(), "%d %s ports are configured", n, i ? "https" : "http");
        if (bad.count(i ? "https_arr" : "http_arr")) continue;
        p.resize(n); CHECK(p == eh[i], "%d %s ports were read, the file has %zu (or other values)", n, i ? "https" : "http", eh[i].size());
    }
}
static Task<> probe(int port, int role) { // 0 http 1 https 2 tunnel server 3 tunnel client 4 shared port
    auto c = std::make_shared<Conn>(dial(port)); StreamP s; auto buf = std::make_shared<Bytes>();
    if (role == 3) {
        size_t before = 0; auto raw = std::make_shared<Stream>(c); co_await raw->write("\5\1"); (void)before;
        Bytes r = co_await raw->read(10); // on_connect refuses: the client is disconnected
        CHECK(r.empty(), "the local port sent %s", hex(r).c_str()); co_return;
    }
    if (role) { auto t = std::make_shared<TlsStream>(c, tls_client_ctx(), false); bool hs = co_await t->handshake(); CHECK(hs, "port %d does not complete a TLS handshake", port); s = t; }
    else s = std::make_shared<Stream>(c);
    if (role == 2 || (role == 4 && G.coin())) {
        if (keys_ok && !cf.keys.empty()) { co_await s->write(auth_header(cf.keys[0])); co_await s->write(socks_greeting()); Bytes r = co_await s->read_exact(2); CHECK(r == Bytes("\5\0", 2), "port %d answers %s to a tunnel client", port, hex(r).c_str()); }
        else { co_await s->write(auth_header("no such key")); Bytes r = co_await s->read(10); CHECK(r.empty(), "a wrong key got %s", hex(r).c_str()); }
    } else { co_await s->write("GET /echo HTTP/1.1\r\nHost: h\r\nAccept: */*\r\n\r\n"); auto r = co_await read_response(s, buf); CHECK(r.bad.empty() && r.status == 200, "port %d answers a web request with %d %s", port, r.status, r.bad.c_str()); }
    s->close();
}
static std::set<uint64_t> dialed;
static void booted() {
    settings();
    W.on_connect = [](SockP s) { dialed.insert((uint64_t)dst_ip(s) << 16 | dst_port(s)); return ConnectPlan{ConnectPlan::REFUSE}; };
    std::vector<std::pair<int, int>> want; if (cf.mode == 1) want.push_back({cf.local_port, 3}); if (cf.mode == 2) want.push_back({cf.serv_port, 2}); for (int p : cf.http) want.push_back({p, 0}); for (int p : cf.https) want.push_back({p, cf.mode == 3 ? 4 : 1});
    if (!odds) {
        std::vector<int> w; for (auto &x : want) w.push_back(x.first); std::sort(w.begin(), w.end()); auto l = W.listening();
        std::string ls, ws; for (int p : l) ls += strf(" %d", p); for (int p : w) ws += strf(" %d", p);
        CHECK(l == w, "listening on%s, configured:%s (mode %d)", ls.c_str(), ws.c_str(), cf.mode);
        for (auto &x : want) spawn(probe(x.first, x.second));
        W.on_finish = [] { if (cf.mode == 1) CHECK(dialed.size() == 1 && *dialed.begin() == ((uint64_t)0x07070707 << 16 | (unsigned)cf.local_serv_port), "the tunnel client does not dial the configured server"); };
    } else if (!W.listening().empty()) { // it must survive whatever it made of the file
        for (int p : W.listening()) spawn([](int p) -> Task<> { auto s = std::make_shared<Stream>(std::make_shared<Conn>(dial(p))); co_await s->write(G.coin() ? Bytes("GET /x HTTP/1.1\r\nHost: h\r\n\r\n") : Bytes("\x16\3\1\0\5hello")); co_await s->read_all(); s->close(); }(p));
    }
}
void prop_setup() { peers_init(); sim_base(); sim_set_file("config/.keep", ""); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(400000000); boot = G.chance(1, 5); odd = G.chance(1, 2); keys_ok = true;
    if (boot) {
        cf.mode = G.below(4); std::vector<int> pool = {80, 8080, 443, 1080, 65535, 1, 30000, 3333}; for (size_t i = 0; i + 1 < pool.size(); i++) std::swap(pool[i], pool[i + G.below(pool.size() - i)]);
        cf.serv_port = pool[0]; cf.local_port = pool[1]; cf.local_serv_port = 443; int a = G.below(4), b = G.below(3); if (G.chance(1, 6)) { a = G.one({7, 8, 9, 20, 64}); b = G.one({0, 1, 9, 64}); label("many ports"); }
        int ba = G.one({10000, 32740, 50000, 2000}), bb = G.one({20000, 33000, 60000, 4000}); for (int i = 0; i < a; i++) cf.http.push_back(i < 3 ? pool[2 + i] : ba + i); for (int i = 0; i < b; i++) cf.https.push_back(i < 3 && a < 4 ? pool[2 + a + i] : bb + i);
        for (int i = G.below(4); i > 0; i--) cf.keys.push_back(strf("key%d", (int)G.below(100)));
        cf.json(); // certificate and key list
        if (odd && G.coin()) { odds++; keys_ok = false; std::string k; switch (G.below(7)) { case 0: k = "[1,null,{},\"a\",[\"b\"]]"; break; case 1: k = "{\"a\":\"b\"}"; break; case 2: k = ""; break; case 3: k = "[" + Bytes(4095, ' '); break; case 4: k = "[\"" + Bytes(4096 - 4 + G.below(3), 'k') + "\"]"; break; case 5: k = G.rbytes(G.below(20)); break; default: k = "[\"\",\"\"]"; } sim_set_file("auth.json", k); }
    }
    gen();
    if (!boot) {
        sim_set_file("config/config.json", text); sim_clock_active(true);
        long m0 = W.live_malloc; int f0 = W.live_files; sh_config_init(); settings();
        CHECK(W.live_malloc == m0, "loading the configuration leaves %ld heap blocks", W.live_malloc - m0); CHECK(W.live_files == f0, "loading the configuration leaves a file open");
    }
    if ((!odd && present >= 8) || (odd && odds)) nontrivial();
    label(boot ? "boot" : "parse"); label(odds ? (broken ? "broken" : "odd") : "well-typed");
    if (want_sample()) sample(strf("%s %s: %s", boot ? "boot" : "parse", odds ? "odd" : "well-typed", quoted(text, 700).c_str()));
    if (!boot) return;
    if (odds) sim_on_exit = [](const char *) { engine_done(); };
    sim_early = true; sim_case_entry = booted; sim_boot(text, false);
}
