#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

Gen G;
static const size_t MAXCH = 1 << 18;
static const int MAXLAB = 128;
static const size_t COVN = 1 << 14;

enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3 };
struct Label { char name[56]; long n; };
struct Shared {
    // current case
    uint64_t ch[MAXCH];
    uint32_t bound[MAXCH];
    size_t nch, ncfg;
    int status, nontriv, in_case, setup_done;
    char msg[4096];
    char sample[3000];
    uint8_t cov[COVN];
    Label lab[MAXLAB]; int nlab;         // labels of the current case
    // batch results
    Label tot[MAXLAB]; int ntot;
    long evals, discards, stopped;
    uint8_t covall[COVN];
    long samples_taken;
    // failing case
    size_t fail_n; int fail_kind;
    uint64_t fail_ch[MAXCH];
    char fail_msg[4096];
    // corpus exchange
    uint64_t hashes[4096]; int nhash;
};
static Shared *S;
static bool g_verbose;
static std::vector<uint64_t> g_feed; static bool g_replay; static bool g_feedrandom;
static size_t g_pos; static Rng g_rng(1);
static int g_batch = 1; static uint64_t g_case_seed0; static double g_deadline;
static std::string g_scratch, g_errfile; static int g_errfd = -1;
static bool g_incase;
static uint64_t g_steps, g_steps_limit = ~0ULL;
static bool g_single;
static FILE *g_samples;
static std::vector<std::vector<uint64_t>> g_corpus;

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x1234567)); r.next(); return r.next(); }
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) { const uint8_t *c = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
std::string strf(const char *fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
std::string hex(const std::string &s, size_t max) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; } if (s.size() > max) o += strf("..(%zu)", s.size()); return o; }
std::string quoted(const std::string &s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\x%02x", c); else o += c; }
    o += "\""; if (s.size() > max) o += strf("..(%zu)", s.size()); return o;
}

uint64_t Gen::below(uint64_t n) {
    if (!S) return 0;
    size_t i = S->nch;
    if (i >= MAXCH) { S->status = ST_DISCARD; _exit(0); }
    uint64_t v;
    if (g_pos < g_feed.size()) v = n ? g_feed[g_pos] % n : g_feed[g_pos];
    else if (g_replay && !g_feedrandom) v = 0;
    else v = n ? g_rng.below(n) : g_rng.next();
    g_pos++;
    S->ch[i] = v; S->bound[i] = n > 0xffffffffu || !n ? 0xffffffffu : (uint32_t)n; S->nch = i + 1;
    return v;
}
uint64_t Gen::any64() {
    switch (below(4)) { case 0: return below(16); case 1: return below(1ull << 32); case 2: { uint64_t sh = below(64); return (1ull << sh) - below(2); } default: return below(0); }
}
size_t Gen::weighted(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; int64_t r = below(t); size_t i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return w.size() - 1; }
std::string Gen::rbytes(size_t n) { std::string s(n, 0); for (auto &c : s) c = (char)below(256); return s; }
std::string Gen::blob(size_t n) { Rng r(below(1u << 31) + 77); std::string s(n, 0); size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(&s[i], &v, 8); } for (; i < n; i++) s[i] = (char)r.next(); return s; }
size_t Gen::size(size_t max) {
    switch (below(6)) { case 0: return below(std::min<size_t>(max, 4) + 1); case 1: return below(std::min<size_t>(max, 16) + 1); case 2: return below(std::min<size_t>(max, 64) + 1);
    case 3: { size_t k = 1; while (k * 2 <= max && below(4)) k *= 2; int64_t v = (int64_t)k + range(-2, 2); return v < 0 ? 0 : std::min<size_t>(v, max); }
    case 4: return max - below(std::min<size_t>(max, 3) + 1); default: return below(max + 1); }
}

void label(const std::string &name, long n) {
    if (!S) return;
    for (int i = 0; i < S->nlab; i++) if (!strncmp(S->lab[i].name, name.c_str(), 55)) { S->lab[i].n += n; return; }
    if (S->nlab < MAXLAB) { snprintf(S->lab[S->nlab].name, 56, "%s", name.c_str()); S->lab[S->nlab++].n = n; }
}
void nontrivial() { if (S) S->nontriv = 1; }
bool want_sample() { return S && (g_verbose || S->samples_taken < 3); }
void sample(const std::string &s) { if (S) { snprintf(S->sample, sizeof S->sample, "%s", s.c_str()); if (g_verbose) printf("CASE %s\n", s.c_str()); } }
bool verbose() { return g_verbose; }
void note(const char *fmt, ...) { if (!g_verbose) return; va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a); fputc('\n', stderr); }
const char *scratch_dir() { return g_scratch.c_str(); }

void engine_done() { S->status = ST_OK; if (g_verbose) fflush(stdout); _exit(0); }
void fail(const char *fmt, ...) {
    if (S && S->status == ST_RUNNING) { va_list a; va_start(a, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, a); va_end(a); S->status = ST_FAIL; if (g_verbose) { fprintf(stderr, "FAIL %s\n", S->msg); fflush(stdout); } }
    _exit(0);
}
void steps_reset(uint64_t limit) { g_steps = 0; g_steps_limit = limit > (~0ULL >> 2) ? ~0ULL : limit * 3; }

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    static uint32_t n; if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (++g_steps > g_steps_limit) { g_steps_limit = ~0ULL; fail("hang: instrumented code executed more than the step budget without returning"); }
    if (S) S->cov[*g & (COVN - 1)] = 1;
}
const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:print_legend=0:quarantine_size_mb=16:malloc_context_size=3:max_malloc_fill_size=0:symbolize=1:detect_odr_violation=0:print_stats=0:handle_sigill=1"; }
const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
}

static std::string crash_summary(int st) {
    std::string txt; { std::ifstream f(g_errfile); std::stringstream ss; ss << f.rdbuf(); txt = ss.str(); }
    std::string out = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
    std::istringstream is(txt); std::string l; int frames = 0;
    while (std::getline(is, l)) {
        if (l.find("ERROR: AddressSanitizer") != l.npos || l.find("runtime error") != l.npos) { size_t p = l.find("AddressSanitizer"); out += " | " + (p == l.npos ? l : l.substr(p)).substr(0, 200); }
        else if (l.find("    #") == 0 && frames < 8) {
            size_t p = l.find(" in "); if (p == l.npos) continue;
            std::string f = l.substr(p + 4); size_t q = f.find(" (/"); if (q != f.npos) f = f.substr(0, q);
            size_t r = f.find("/src/"); if (r != f.npos) { size_t sp = f.find(' '); f = f.substr(0, sp) + "@" + f.substr(r + 5); }
            out += (frames ? " < " : " at ") + f.substr(0, 80); frames++;
        }
    }
    return out.substr(0, 1800);
}

static int g_caselimit_s = 25;
// returns 0 ok, 1 fail(msg in S->msg), 2 discard, 3 wall-clock timeout
static int classify(int st, double wall, double cpu) {
    if (S->status == ST_FAIL) return 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        if (cpu < wall * 0.2) { snprintf(S->msg, sizeof S->msg, "blocked: no progress, waiting forever without using cpu"); return 1; }
        return 3;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == ST_OK) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == ST_DISCARD) return 2;
    std::string m = "crash: " + crash_summary(st);
    if (WIFEXITED(st) && S->status == ST_RUNNING && WEXITSTATUS(st) != 99 && WEXITSTATUS(st) != 1) m = "process exited unexpectedly: " + m;
    snprintf(S->msg, sizeof S->msg, "%s", m.c_str());
    return 1;
}
static void case_reset(size_t keep) { S->nch = keep; S->status = ST_RUNNING; S->nontriv = 0; S->msg[0] = 0; S->sample[0] = 0; S->nlab = 0; memset(S->cov, 0, COVN); }

static void record_fail(int kind) {
    S->fail_n = S->nch; memcpy(S->fail_ch, S->ch, S->nch * 8); memcpy(S->fail_msg, S->msg, sizeof S->msg); S->fail_kind = kind;
}
static void account() {
    S->evals++;
    for (int i = 0; i < S->nlab; i++) {
        int j; for (j = 0; j < S->ntot; j++) if (!strcmp(S->tot[j].name, S->lab[i].name)) break;
        if (j == S->ntot) { if (S->ntot == MAXLAB) continue; S->tot[S->ntot] = S->lab[i]; S->tot[S->ntot++].n = 0; }
        S->tot[j].n += S->lab[i].n;
    }
    if (S->nontriv && S->nhash < 4096) S->hashes[S->nhash++] = hash_bytes(S->ch, S->nch * 8);
    for (size_t i = 0; i < COVN; i++) S->covall[i] |= S->cov[i];
    if (S->sample[0] && S->samples_taken < 3 && g_samples && S->nontriv) { S->samples_taken++; fprintf(g_samples, "%s\n", S->sample); fflush(g_samples); }
}

static int g_log = 2; // standard error of the engine, also in processes whose own is a file
static int run_child_wait(pid_t p, int *st, double *wall, double *cpu) {
    double t0 = now_s(); struct rusage ru;
    *st = 0; memset(&ru, 0, sizeof ru); int r = 0, tries = 0;
    while (wait4(p, st, 0, &ru) < 0) {
        if (errno == EINTR) continue;
        dprintf(g_log, "engine: wait4(%d): %s\n", (int)p, strerror(errno)); if (errno != ECHILD && ++tries < 1000) { usleep(1000); continue; }
        for (int k = 0; k < 30000 && kill(p, 0) == 0; k++) usleep(1000);
        r = -1; *st = 0; if (S->status == ST_RUNNING) S->status = ST_DISCARD; break;    // how it ended is unknown: the case does not count
    }
    *wall = now_s() - t0; *cpu = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) * 1e-6;
    return r;
}
static void child_common() { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, nullptr); }

// Called from the set-up process: runs the batch, one forked child per case.
void engine_ready() {
    size_t cfg = S->nch; S->ncfg = cfg; S->setup_done = 1; alarm(0);
    size_t cfgpos = g_pos;
    for (int k = 0; k < g_batch; k++) {
        if (!g_single && now_s() > g_deadline) { S->stopped = 1; break; }
        case_reset(cfg); g_pos = cfgpos;
        if (g_errfd >= 0 && !g_verbose) { (void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET); }
        pid_t p = fork();
        if (p < 0) { perror("fork"); _exit(3); }
        if (p == 0) {
            child_common();
            if (!g_single) g_rng = Rng(mix(g_case_seed0, k));
            alarm(g_caselimit_s); g_incase = true; return;
        }
        int st; double w, c; run_child_wait(p, &st, &w, &c);
        int r = classify(st, w, c);
        if (r == 0) {
            bool newcov = false; for (size_t i = 0; i < COVN && !newcov; i++) newcov = S->cov[i] && !S->covall[i];
            account();
            if (newcov && prop_guided && !g_single && S->fail_kind == 0) { // hand the sequence back through the fail buffer
                S->fail_n = S->nch; memcpy(S->fail_ch, S->ch, S->nch * 8); S->fail_kind = -1; _exit(0);
            }
        } else if (r == 2) S->discards++;
        else { record_fail(r); _exit(0); }
    }
    _exit(0);
}

__attribute__((weak)) void prop_setup() { engine_ready(); prop_case(); engine_done(); }
__attribute__((weak)) int prop_batch = 50;
__attribute__((weak)) bool prop_guided = false;

// Runs set-up + batch in a fork. Results in S.
static void run_batch() {
    S->setup_done = 0; S->fail_kind = 0; S->stopped = 0; case_reset(0); g_pos = 0;
    if (g_errfd >= 0 && !g_verbose) { (void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET); }
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        child_common(); signal(SIGPIPE, SIG_DFL); // an interpreter may have left it ignored
        if (!g_verbose) { int n = open("/dev/null", O_RDWR); dup2(n, 1); if (g_errfd >= 0) dup2(g_errfd, 2); }
        alarm(g_caselimit_s); prop_setup(); _exit(97);
    }
    int st; double w, c; run_child_wait(p, &st, &w, &c);
    if (S->setup_done && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (S->fail_kind > 0) return;
    if (!S->setup_done) { // the set-up itself (start of the program) failed, passed or died
        int r = classify(st, w, c);
        if (r == 0) account(); else if (r == 2) S->discards++; else record_fail(r);
        return;
    }
    fprintf(stderr, "engine: batch process died unexpectedly (status %x)\n", st); exit(3);
}
// Run one explicit sequence; returns class.
static int run_one(const std::vector<uint64_t> &seq, bool feedrandom = false) {
    g_feed = seq; g_replay = true; g_feedrandom = feedrandom; g_single = true; g_batch = 1;
    long e = S->evals; Label t[MAXLAB]; int nt = S->ntot, nh = S->nhash; memcpy(t, S->tot, sizeof t);
    run_batch();
    S->evals = e; S->ntot = nt; S->nhash = nh; memcpy(S->tot, t, sizeof t);
    return S->fail_kind > 0 ? S->fail_kind : 0;
}

static std::string msgclass(const char *m) { std::string s(m); size_t p = s.find_first_of(":("); s = s.substr(0, p == s.npos ? 24 : std::min<size_t>(p, 40)); return s; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> cur, double budget) {
    double end = now_s() + budget; long tries = 0;
    std::string cls = msgclass(S->fail_msg);
    auto attempt = [&](const std::vector<uint64_t> &c) {
        if (now_s() > end) return false; tries++;
        if (run_one(c) == 1 && msgclass(S->fail_msg) == cls) {
            std::vector<uint64_t> used(S->fail_ch, S->fail_ch + S->fail_n);
            if (used.size() > c.size()) used.resize(c.size());
            while (!used.empty() && used.back() == 0) used.pop_back();
            if (used.size() < cur.size() || (used.size() == cur.size() && used < cur)) { cur = used; return true; }
        }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    bool prog = true;
    while (prog && now_s() < end) {
        prog = false;
        for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now_s() < end; len /= 2) {
            for (size_t i = 0; i < cur.size() && now_s() < end;) {
                auto c = cur; c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + len));
                if (attempt(c)) prog = true; else i += len;
            }
            if (len > 1) for (size_t i = 0; i + len <= cur.size() && now_s() < end; i += len) {
                auto c = cur; bool nz = false; for (size_t j = i; j < i + len; j++) { nz |= c[j] != 0; c[j] = 0; }
                if (nz && attempt(c)) prog = true;
            }
        }
        for (size_t i = 0; i < cur.size() && now_s() < end; i++) {
            if (!cur[i]) continue;
            auto c = cur; c[i] = 0; if (attempt(c)) { prog = true; continue; }
            uint64_t lo = 0;
            while (i < cur.size() && lo + 1 < cur[i] && now_s() < end) { auto d = cur; uint64_t m = lo + (cur[i] - lo) / 2; d[i] = m; if (attempt(d)) prog = true; else lo = m; }
        }
    }
    fprintf(stderr, "engine: shrink tried %ld sequences, %zu choices left\n", tries, cur.size());
    return cur;
}

struct ShardResult { long evals = 0, discards = 0, timeouts = 0, edges = 0; std::map<std::string, long> labels; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; std::set<std::string> fails; std::set<size_t> cov; std::map<std::string,long> known; };
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o + "\""; }

static void mutate(std::vector<uint64_t> &v, Rng &r) {
    int n = 1 + r.below(4);
    while (n--) {
        if (v.empty()) { v.push_back(r.next()); continue; }
        size_t i = r.below(v.size());
        switch (r.below(7)) {
        case 0: case 1: v[i] = r.below(4) ? r.below(256) : r.next(); break;
        case 2: v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + 1 + r.below(8))); break;
        case 3: v.insert(v.begin() + i, 1 + r.below(4), r.below(256)); break;
        case 4: v.resize(i); break;
        case 5: { size_t l = std::min(v.size() - i, (size_t)(1 + r.below(16))); std::vector<uint64_t> t(v.begin() + i, v.begin() + i + l); v.insert(v.begin() + r.below(v.size()), t.begin(), t.end()); break; }
        case 6: v[i] += r.below(3) - 1; break;
        }
        if (v.size() > 20000) v.resize(20000);
    }
}

static void write_seq(const std::string &path, const std::vector<uint64_t> &v, const std::string &msg) {
    std::ofstream f(path); f << "# " << msg.substr(0, msg.find('\n')) << "\n"; for (auto x : v) f << x << "\n";
}
static std::vector<uint64_t> read_seq(const std::string &path) {
    std::ifstream f(path); std::string l; std::vector<uint64_t> v; while (std::getline(f, l)) if (!l.empty() && l[0] != '#') v.push_back(strtoull(l.c_str(), 0, 10)); return v;
}

static void alloc_shared() {
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(3); }
}
static void rmrf(const std::string &d) { // only ever called on our own scratch directory
    if (d.find("/s5verif_") == std::string::npos) return;
    DIR *dp = opendir(d.c_str()); if (!dp) return;
    while (dirent *e = readdir(dp)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str()); }
    closedir(dp); rmdir(d.c_str());
}

int main(int argc, char **argv) {
    g_log = fcntl(2, F_DUPFD_CLOEXEC, 200); if (g_log < 0) g_log = 2;
    std::string prop = "C00", tier = "quick", evid, replay, knownf; uint64_t seed = 1; long cases = -1; double tlimit = -1; int shards = 8; std::string outdir = ".";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--evidence") evid = val(); else if (a == "--replay") replay = val(); else if (a == "--cases") cases = atol(val().c_str());
        else if (a == "--time") tlimit = atof(val().c_str()); else if (a == "--shards") shards = atoi(val().c_str()); else if (a == "-v") g_verbose = true;
        else if (a == "--replays") outdir = val(); else if (a == "--known") knownf = val();
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const char *tmp = getenv("TMPDIR"); std::string base = std::string(tmp && *tmp ? tmp : "/tmp") + "/s5verif_" + prop + "_XXXXXX";
    if (!mkdtemp(&base[0])) { perror("mkdtemp"); return 3; }
    { struct rlimit rl; if (!getrlimit(RLIMIT_CORE, &rl)) { rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl); } }
    if (!replay.empty()) {
        g_scratch = base; g_errfile = base + "/stderr"; alloc_shared(); g_errfd = open(g_errfile.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
        int k = run_one(read_seq(replay)); fflush(stdout);
        printf("replay: %s %s\n", k == 1 ? "VIOLATED" : k == 3 ? "TIMEOUT" : "held", k ? S->fail_msg : "");
        if (S->sample[0]) printf("case: %s\n", S->sample);
        rmrf(base); return k == 1 ? 1 : 0;
    }
    if (cases < 0) cases = tier == "thorough" ? prop_cases_thorough : prop_cases_quick;
    if (tlimit < 0) tlimit = tier == "thorough" ? 600 : 150;
    double t0 = now_s(); g_deadline = t0 + tlimit;
    // known findings: lines "known: property=<id> sig=<text> :: <description>"
    std::vector<std::pair<std::string, std::string>> known;
    if (!knownf.empty()) { std::ifstream f(knownf); std::string l; while (std::getline(f, l)) { std::string pre = "known: property=" + prop + " sig="; if (l.compare(0, pre.size(), pre) == 0) { size_t p = l.find(" :: "); known.push_back({l.substr(pre.size(), p - pre.size()), p == l.npos ? "" : l.substr(p + 4)}); } } }
    std::vector<pid_t> pids;
    // a shared stop flag so that one failing shard ends the others
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int sh = 0; sh < shards; sh++) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_scratch = base + "/" + std::to_string(sh); mkdir(g_scratch.c_str(), 0755); g_errfile = g_scratch + "/stderr";
            alloc_shared(); g_errfd = open(g_errfile.c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
            g_samples = fopen((g_scratch + "/samples").c_str(), "w");
            uint64_t sseed = mix(mix(seed, hash_bytes(prop.data(), prop.size())), sh);
            Rng mr(mix(sseed, 99)); std::unordered_set<uint64_t> hs; long timeouts = 0; std::map<std::string, long> knownhits;
            long mycases = cases / shards + (sh < cases % shards); std::string failpath; int unstable = 0;
            for (uint64_t b = 0; S->evals + S->discards < mycases && !*stop; b++) {
                g_feed.clear(); g_replay = false; g_feedrandom = true; g_single = false; g_batch = (int)std::min<long>(prop_batch, mycases - S->evals - S->discards);
                g_case_seed0 = mix(sseed, b); g_rng = Rng(mix(g_case_seed0, ~0ULL));
                if (prop_guided && !g_corpus.empty() && mr.below(2)) { // mutated sequence, single case, random tail
                    auto v = g_corpus[mr.below(g_corpus.size())]; mutate(v, mr); g_feed = v; g_replay = true; g_batch = 4;
                }
                run_batch();
                for (int i = 0; i < S->nhash; i++) hs.insert(S->hashes[i]); S->nhash = 0;
                if (S->fail_kind == -1) { if (g_corpus.size() < 400 && S->fail_n < 20000) g_corpus.emplace_back(S->fail_ch, S->fail_ch + S->fail_n); }
                else if (S->fail_kind == 3) timeouts++;
                else if (S->fail_kind == 1) {
                    std::vector<uint64_t> seq(S->fail_ch, S->fail_ch + S->fail_n); std::string m0 = S->fail_msg;
                    bool isknown = false; for (auto &k : known) if (m0.find(k.first) != std::string::npos) { knownhits[k.first]++; isknown = true; S->evals++; break; }
                    if (isknown) continue;
                    int rep = 0; for (int i = 0; i < 3; i++) rep += run_one(seq) == 1;
                    if (rep < 3) fprintf(stderr, "engine: failure reproduced only %d/3 times: %s\n", rep, m0.c_str());
                    if (rep == 0 && !unstable++) { S->discards++; continue; }     // once: something outside the simulation, such as a killed process
                    if (__sync_lock_test_and_set((int *)stop, 1)) break; // another shard reports
                    if (rep < 3) { failpath = base + "/unstable"; write_seq(failpath, seq, m0); }
                    else {
                        run_one(seq); auto sm = shrink(seq, getenv("VERIF_NOSHRINK") ? 1 : tier == "thorough" ? 120 : 45);
                        rep = 0; for (int i = 0; i < 3; i++) rep += run_one(sm) == 1;
                        if (rep < 3) sm = seq, run_one(sm);
                        failpath = base + "/violation"; write_seq(failpath, sm, S->fail_msg);
                    }
                    break;
                }
                if (now_s() > g_deadline) break;
            }
            std::ofstream o(g_scratch + "/result");
            o << "evals " << S->evals << "\ndiscards " << S->discards << "\ntimeouts " << timeouts << "\n";
            for (int i = 0; i < S->ntot; i++) o << "label " << S->tot[i].n << " " << S->tot[i].name << "\n";
            for (auto h : hs) o << "hash " << h << "\n";
            for (size_t i = 0; i < COVN; i++) if (S->covall[i]) o << "cov " << i << "\n";
            for (auto &k : knownhits) o << "known " << k.second << " " << k.first << "\n";
            o << "end\n"; o.close(); _exit(0);
        }
        pids.push_back(p);
    }
    bool dead = false; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) dead = true; }
    ShardResult R;
    for (int sh = 0; sh < shards; sh++) {
        std::string d = base + "/" + std::to_string(sh); std::ifstream f(d + "/result"); std::string l; bool end = false;
        while (std::getline(f, l)) {
            std::istringstream is(l); std::string k; is >> k; long n;
            if (k == "evals") { is >> n; R.evals += n; } else if (k == "discards") { is >> n; R.discards += n; } else if (k == "timeouts") { is >> n; R.timeouts += n; }
            else if (k == "label") { is >> n; std::string rest; std::getline(is, rest); R.labels[rest.substr(1)] += n; }
            else if (k == "hash") { uint64_t h; is >> h; R.hashes.insert(h); } else if (k == "cov") { is >> n; R.cov.insert(n); }
            else if (k == "known") { is >> n; std::string rest; std::getline(is, rest); R.known[rest.substr(1)] += n; } else if (k == "end") end = true;
        }
        if (!end) dead = true;
        std::ifstream sf(d + "/samples"); while (std::getline(sf, l)) if (R.samples.size() < 6) R.samples.push_back(l);
    }
    bool viol = false, unstable = access((base + "/unstable").c_str(), F_OK) == 0; std::string msg, rpath;
    if (access((base + "/violation").c_str(), F_OK) == 0) {
        viol = true; rpath = outdir + "/" + prop + ".replay"; auto v = read_seq(base + "/violation"); std::ifstream f(base + "/violation"); std::getline(f, msg);
        write_seq(rpath, v, msg.substr(2));
    }
    double wall = now_s() - t0;
    if (!evid.empty()) {
        std::ofstream o(evid);
        o << "{\"property\":" << jstr(prop) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << R.evals << ",\"distinct_nontrivial\":" << R.hashes.size() << ",\"rule\":" << jstr(prop_rule) << ",\"discarded\":" << R.discards << ",\"timeouts\":" << R.timeouts << ",\"edges_covered\":" << R.cov.size() << ",\"distribution\":{";
        bool first = true; for (auto &k : R.labels) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
        o << "},\"samples\":["; first = true; for (auto &s : R.samples) { o << (first ? "" : ",") << jstr(s); first = false; }
        o << "]},\"wall_s\":" << strf("%.2f", wall) << ",\"violations\":" << (viol ? 1 : 0) << "}\n";
    }
    printf("%s %s seed=%lu: %ld cases, %zu distinct non-trivial, %ld discarded, %ld timeouts, %zu edges, %.1fs\n", prop.c_str(), tier.c_str(), (unsigned long)seed, R.evals, R.hashes.size(), R.discards, R.timeouts, R.cov.size(), wall);
    if (getenv("VERIF_LABELS")) for (auto &k : R.labels) printf("   %-40s %ld\n", k.first.c_str(), k.second);
    for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.second.c_str());
    rmrf(base);
    if (viol) { printf("%s\n", msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rpath.c_str()); return 1; }
    if (unstable) { printf("error: a failure did not reproduce\n"); return 4; }
    if (dead) { printf("error: a shard died\n"); return 3; }
    if (R.evals == 0 || R.hashes.empty()) { printf("error: nothing exercised\n"); return 5; }
    return 0;
}
