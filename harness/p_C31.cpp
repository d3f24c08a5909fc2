// The command line: which process is signalled, and what a start leaves in the id file.
#include "peers.h"
#include <cerrno>
#include <climits>
#include <cstring>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>

const char *prop_rule = "a case is either a run with 1..3 arguments (the two requests, near misses, others) over a drawn id file (absent, a number with or without blanks around it, zero, negative, out of range, words, empty, up to 200 bytes) and a drawn answer of the system to the signal, or a start with a drawn configuration (readable or not, ports that open or not, 0..3 workers, foreground or daemon) over a drawn id file; non-trivial when a request met a present id file, or a start failed over a present id file, or a start succeeded";
long prop_cases_quick = 12000, prop_cases_thorough = 200000; int prop_batch = 200;

static std::vector<std::pair<int, int>> kills; static int kill_errno; static bool starting, daemon_, in_parent, forked; static int workers; static std::string idfile, before_; static bool had;
static std::map<std::string, std::string> files0;
static std::string slurp(const std::string &p, bool &ok) { FILE *f = ::fopen(p.c_str(), "r"); ok = f; std::string s; if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static void tree(const std::string &d, std::map<std::string, std::string> &o) {
    DIR *x = ::opendir(d.c_str()); if (!x) return;
    while (auto *e = ::readdir(x)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (::lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { o[p] = "dir"; tree(p, o); } else { bool ok; o[p] = slurp(p, ok); } }
    ::closedir(x);
}
static void ended(const char *how);
static void started();
struct Os : SimOs {
    int fork() override { CHECK(starting, "the command line tool forks"); if (daemon_ && !forked) { forked = true; return in_parent ? 4242 : 0; } if (!workers) fail("a process without workers forks"); static int n = 5000; return n++; }
    int kill(int pid, int sig) override { kills.push_back({pid, sig}); if (kill_errno) { errno = kill_errno; return -1; } return 0; }
    int waitpid(int, int *, int) override { errno = ECHILD; return -1; }
    void exit(int) override { ended("exit"); engine_done(); }
    int sigaction(int, const struct sigaction *, struct sigaction *o) override { if (o) memset(o, 0, sizeof *o); return 0; }
    int sigprocmask(int, const sigset_t *, sigset_t *o) override { if (o) sigemptyset(o); return 0; }
    int sigsuspend(const sigset_t *) override { started(); engine_done(); }
    int wait_events(int) override { started(); engine_done(); }
    void before(const char *) override {}
};
static bool must_fail; static std::string why;
static std::vector<std::pair<int, int>> want; static bool either;
static std::string show(const std::vector<std::pair<int, int>> &v) { std::string s; for (auto &k : v) s += strf(" signal %d to %d", k.second, k.first); return v.empty() ? " nothing" : s; }
static void ended(const char *how) {
    std::map<std::string, std::string> now; tree(sim_base(), now);
    if (!starting) {
        CHECK(kills == want || (either && kills.empty()), "the command line sent%s; it asked for%s", show(kills).c_str(), show(want).c_str());
        CHECK(sim_socks().empty() && W.listening().empty(), "the command line tool opens sockets");
        CHECK(now == files0, "the command line tool changes files"); return;
    }
    CHECK(kills.empty(), "a start sends%s", show(kills).c_str());
    if (daemon_ && in_parent && forked) return; // the other process goes on
    bool ok; std::string rec = slurp(idfile, ok);
    CHECK(ok == had && rec == before_, "a start that failed (%s, %s) left %s in the id file, which had been %s", why.empty() ? "?" : why.c_str(), how, ok ? quoted(rec, 60).c_str() : "nothing", had ? quoted(before_, 60).c_str() : "absent");
    if (had) nontrivial(); label("start failed");
}
static void started() {
    CHECK(!must_fail, "the program runs although %s", why.c_str()); CHECK(kills.empty(), "a start sends%s", show(kills).c_str());
    bool ok; std::string rec = slurp(idfile, ok); CHECK(ok && rec == std::to_string(::getpid()), "the running program is %d, the id file says %s", (int)::getpid(), quoted(rec, 60).c_str()); nontrivial(); label(workers ? "started with workers" : "started");
}
static std::string blanks(bool some) { std::string s; if (some) for (int i = G.below(4); i > 0; i--) s += G.one({'\n', ' ', '\t', '\r'}); return s; }
static void gen_id() { // the id file, and the id in it: want_id > 0 must be used, either: may be
    sim_set_file("logs/.keep", ""); idfile = sim_base() + "logs/pid"; ::unlink(idfile.c_str());
}
static long id; static int kind;
static std::string gen_record() {
    id = 0; either = false; kind = G.weighted({6, 2, 2, 2, 2, 2, 2, 2, 2}); long p = G.one<long>({1 + (long)G.below(32768), 1 + (long)G.below(4194304), 2, 1, INT_MAX});
    switch (kind) {
    case 0: id = p; return std::to_string(p);
    case 1: id = p; return std::to_string(p) + blanks(true);
    case 2: return G.one<std::string>({"0", "00", "0\n", "-0"});
    case 3: return "-" + std::to_string(p) + blanks(G.coin());
    case 4: return std::to_string(G.one<unsigned long>({4294967296UL + p, 2147483648UL, 4294967295UL, 4294967297UL, 9223372036854775807UL, 9223372036854775808UL, 18446744073709551615UL})) + (G.coin() ? "" : Bytes(G.below(30), '0'));
    case 5: { std::string s = G.one<std::string>({"none", "pid", "x12", "abc 123", " ", "\n", "#1", ".5", "--2", "{\"pid\":1}"}); return s; }
    case 6: return "";
    case 7: { either = true; id = p; int n = G.below(3); if (n == 0) return blanks(true) + std::to_string(p); if (n == 1) return "+" + std::to_string(p); return Bytes(G.below(40), '0') + std::to_string(p); }
    default: { either = true; std::string t = G.rbytes(1 + G.below(150)); for (auto &c : t) if (c >= '0' && c <= '9') c = 'd'; id = p; return std::to_string(p) + "x" + t; }
    }
}
void prop_setup() { sim_base(); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    static Os os; OS = &os; sim_in_case = true; sim_early = true; peers_init(); sim_base(); POOL.real = false; W.now_ms = 1700000000000ULL + G.below(100000);
    gen_id(); starting = G.chance(2, 5); had = G.chance(5, 6); before_ = gen_record(); if (had) sim_set_file("logs/pid", before_); else before_.clear();
    if (!starting) {
        std::vector<std::string> a = {"s5-under-test"}; int sig = 0; const char *good = nullptr;
        switch (G.weighted({4, 4, 4, 2, 1})) {
        case 0: good = "-reload"; sig = 1; break; case 1: good = "-stop"; sig = 2; break;
        case 2: { std::string x = G.one<std::string>({"-reload", "-stop"}); switch (G.below(8)) { case 0: x += G.one<std::string>({"d", " ", "\n", "-stop", "=1"}); break; case 1: x.pop_back(); break; case 2: x = "-" + x; break; case 3: x = x.substr(1); break; case 4: x[1 + G.below(x.size() - 1)] ^= 0x20; break; case 5: x = " " + x; break; case 6: { size_t i = 1 + G.below(x.size() - 1); x[i] = x[i] == 'q' ? 'z' : 'q'; break; } default: x = Bytes(1 + G.below(x.size()), '-'); } a.push_back(x); break; }
        case 3: { std::string x = G.one<std::string>({"", "-", "-h", "-start", "-restart", "%n%s%s%s", "-s", "/etc/passwd"}); if (G.chance(1, 4)) x = Bytes(1 + G.below(6000), 'a'); a.push_back(x); break; }
        default: for (int i = 2 + G.below(2); i > 0; i--) a.push_back(G.one<std::string>({"-reload", "-stop", "", "x"}));
        }
        if (good) a.push_back(good);
        if (good && had && id > 0) want.push_back({(int)id, sig}); else either = false;
        kill_errno = G.one({0, 0, 0, ESRCH, EPERM}); if (good && had) nontrivial(); label(good ? had ? strf("request, record %d", kind) : std::string("request, no record") : std::string("other arguments"));
        if (G.coin()) sim_set_file("config/config.json", "{\"s5_mode\":2,\"s5_serv_port\":443,\"http_arr\":[80]}"); else ::unlink((sim_base() + "config/config.json").c_str());
        std::string s; for (size_t i = 1; i < a.size(); i++) s += " " + quoted(a[i], 40); if (want_sample()) sample(strf("arguments%s, id file %s", s.c_str(), had ? quoted(before_, 60).c_str() : "absent"));
        note("arguments%s, id file %s", s.c_str(), had ? quoted(before_, 60).c_str() : "absent");
        tree(sim_base(), files0); sim_run_main(a); fail("the command line tool goes on to start a server");
    }
    static Conf cf; cf.mode = G.below(4); cf.serv_port = 443; cf.local_port = 1080; cf.local_serv_port = 443; for (int i = G.below(4); i > 0; i--) cf.http.push_back(8000 + i); for (int i = G.below(3); i > 0; i--) cf.https.push_back(9000 + i); cf.keys = {"key"};
    std::string text = cf.json(); daemon_ = G.chance(1, 4); in_parent = G.chance(1, 4); workers = G.one({0, 0, 1, 3});
    auto set = [&](const char *k, int v) { size_t at = text.find('{'); std::string q = jq(k), t; size_t x = text.find(q); if (x != std::string::npos) { size_t c = text.find(':', x), e = text.find_first_of(",}", c); text = text.substr(0, c + 1) + std::to_string(v) + text.substr(e); } else text.insert(at + 1, q + ":" + std::to_string(v) + ","); };
    set("sys_daemon", daemon_); set("sys_process", workers);
    int ports = (cf.mode == 1 || cf.mode == 2) + cf.http.size() + cf.https.size();
    static int bad = -1, seen; static std::string op; seen = 0;
    switch (G.below(6)) {
    case 0: case 1: case 2: break;
    case 3: why = "its configuration is missing"; must_fail = true; break;
    case 4: why = "its configuration is cut off"; must_fail = true; text.resize(G.below(text.rfind('}'))); break;
    default: if (ports) { bad = G.below(ports); op = G.one<std::string>({"bind", "listen", "socket"}); why = "a port cannot be opened"; must_fail = true; static int e = G.one({EADDRINUSE, EACCES, EMFILE}); W.fault = [](const char *o) { return op == o && seen++ == bad ? e : 0; }; }
    }
    sim_set_file("config/config.json", text); if (must_fail && why == "its configuration is missing") ::unlink((sim_base() + "config/config.json").c_str());
    if (want_sample()) sample(strf("start in mode %d with %d ports, %d workers%s, %s, id file %s", cf.mode, ports, workers, daemon_ ? ", daemon" : "", why.empty() ? "nothing wrong" : why.c_str(), had ? quoted(before_, 60).c_str() : "absent"));
    note("start in mode %d with %d ports, %d workers%s, %s, id file %s", cf.mode, ports, workers, daemon_ ? ", daemon" : "", why.empty() ? "nothing wrong" : why.c_str(), had ? quoted(before_, 60).c_str() : "absent");
    sim_run_main({"s5-under-test"}); CHECK(must_fail, "the start fails although nothing is wrong"); ended("return");
}
