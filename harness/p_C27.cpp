// Supervision: real processes of the program, stepped one at a time between their
// system calls.  The case process is the controller: it decides which process runs
// next, when signals are sent, which worker dies and when time passes.
#include "mix.h"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>

const char *prop_rule = "a case is either a supervisor with 1..4, seldom up to 20, workers (foreground or daemon), a drawn list of 0..8 events (workers killed, reload requests and bursts of them through the program's own command line or a plain signal; in a quarter of the cases the next 1..6 attempts to start a process are refused at drawn points) and usually a stop request, with a drawn interleaving of all processes between their system calls, or a single process without workers stopped while 0..6 connections are at drawn points; non-trivial when at least two events took place, or at least one connection was open at the stop";
long prop_cases_quick = 1500, prop_cases_thorough = 20000; int prop_batch = 25;

enum Point { P_START, P_MASK, P_CALL, P_SUSPEND, P_WAIT, P_WOKEN, P_EXIT };
static const char *pname[] = {"start", "mask", "call", "suspend", "wait", "woken", "exit"};
struct Slot {
    std::atomic<int> pid, at, go, handled; int parent, point; sigset_t mask; uint64_t deadline, alarm; int listening; int ints; char what[24]; int rc;
    bool master, dead, killed;                       // kept by the controller
};
struct Shm { std::atomic<unsigned> bell; std::atomic<int> n, deny, denied; std::atomic<uint64_t> now; Slot s[400]; };
static Shm *H; static int me = -1; static bool helper;
static sigset_t vmask, all; static struct sigaction acts[65]; static int GO;

static void ring() { H->bell++; syscall(SYS_futex, &H->bell, FUTEX_WAKE, 1 << 20, nullptr, nullptr, 0); }
static bool gone(int pid) { // dead, reaped or not
    char p[64], b[256]; snprintf(p, sizeof p, "/proc/%d/stat", pid); int f = ::open(p, O_RDONLY); if (f < 0) return true; ssize_t n = ::read(f, b, sizeof b - 1); ::close(f); if (n <= 0) return true; b[n] = 0; char *x = strrchr(b, ')'); return x && (x[2] == 'Z' || x[2] == 'X');
}
static bool pending(int pid, int sig) {
    char p[64], b[4096]; snprintf(p, sizeof p, "/proc/%d/status", pid); int f = ::open(p, O_RDONLY); if (f < 0) return true; ssize_t n = ::read(f, b, sizeof b - 1); ::close(f); if (n <= 0) return true; b[n] = 0;
    char *x = strstr(b, "ShdPnd:"); return x && (strtoull(x + 7, nullptr, 16) >> (sig - 1) & 1);
}
template <class F> static void await(F f, const char *what) {
    for (int i = 0; !f(); i++) { if (i > 400000) { fprintf(stderr, "controller: no progress (%s)\n", what); _exit(97); } unsigned b = H->bell; if (f()) return; timespec t{0, 50000}; if (i < 20) sched_yield(); else syscall(SYS_futex, &H->bell, FUTEX_WAIT, b, &t, nullptr, 0); }
}
static bool settled(Slot &s) { return s.at; }
// Sends a signal to a process that stands still, and waits until it took effect there.
static void deliver(int i, int sig) {
    Slot &s = H->s[i]; int h = s.handled; bool blocked = sigismember(&s.mask, sig) && sig != SIGKILL;
    if (sig == SIGINT) s.ints++;
    ::kill(s.pid, sig); if (blocked) return;
    await([&] { return (s.handled != h && settled(s)) || gone(s.pid); }, "signal");
}
struct Before { int handled; bool blocked; };
static Before before_death(int i) { return i < 0 ? Before{0, false} : Before{H->s[i].handled.load(), sigismember(&H->s[i].mask, SIGCHLD) == 1}; }
static void notified(int i, Before b) { // a child of i, which stood still, has died
    if (i < 0) return; Slot &s = H->s[i];
    await([&] { return gone(s.pid) || (b.blocked ? pending(s.pid, SIGCHLD) : s.handled != b.handled && settled(s)); }, "child notice");
}

// ---- in the program's processes
static void tramp(int sig, siginfo_t *i, void *c) { acts[sig].sa_sigaction(sig, i, c); H->s[me].at = 0; H->s[me].handled++; }
static void on_go(int) { H->s[me].go = 1; }
static void sync_(int point, const sigset_t &m, bool intr, const char *what = "") {
    if (helper) return;
    Slot &s = H->s[me]; int h = s.handled; s.go = 0; sigset_t w = m; sigaddset(&w, GO); s.mask = m; s.point = point; snprintf(s.what, sizeof s.what, "%s", what);
    ::sigprocmask(SIG_SETMASK, &w, nullptr); ::sigprocmask(SIG_SETMASK, &all, nullptr); // what is pending arrives now
    for (;;) {
        if (intr && s.handled != h) { intr = false; s.point = P_WOKEN; s.mask = vmask; w = vmask; sigaddset(&w, GO); ::sigprocmask(SIG_SETMASK, &w, nullptr); ::sigprocmask(SIG_SETMASK, &all, nullptr); }
        sigset_t r = w; sigdelset(&r, GO); s.at = 1; ring(); ::sigsuspend(&r);
        if (s.go) break;
    }
    s.at = 0; W.now_ms = H->now; steps_reset(200000000);
}
static void watchdog() { sigevent e{}; e.sigev_notify = SIGEV_SIGNAL; e.sigev_signo = SIGKILL; timer_t t; itimerspec v{}; v.it_value.tv_sec = 90; if (timer_create(CLOCK_MONOTONIC, &e, &t) || timer_settime(t, 0, &v, nullptr)) { perror("timer"); ::_exit(97); } }
static void enter(int i) { me = i; H->s[i].pid = ::getpid(); watchdog(); }
static bool daemon_;
struct Os : SimOs {
    int fork() override {
        if (helper) fail("the command line tool forks");
        sync_(P_CALL, vmask, false, "fork"); if (H->deny > 0 && !(daemon_ && me == 0)) { H->deny--; H->denied++; errno = EAGAIN; return -1; }
        int i = H->n++; CHECK(i < 400, "the program starts processes without end"); Slot &s = H->s[i]; s.parent = me; s.at = 0; s.mask = vmask;
        int p = ::fork(); if (p < 0) { perror("fork"); ::_exit(97); }
        if (p == 0) { prctl(PR_SET_PDEATHSIG, 0); enter(i); sync_(P_START, vmask, false); return 0; }
        await([&] { return s.at.load(); }, "start of a process"); return p;
    }
    int find(int pid) { for (int i = H->n - 1; i >= 0; i--) if (H->s[i].pid == pid) return i; return -1; }
    int kill(int pid, int sig) override {
        sync_(P_CALL, vmask, false, "kill");
        if (pid <= 0) fail("the program signals every process (pid %d)", pid);
        int i = find(pid); if (i < 0 || H->s[i].dead) { errno = ESRCH; return -1; } // not ours, or reaped
        if (::kill(pid, 0)) return -1;
        if (sig && !gone(pid)) { if (i == me) ::raise(sig); else deliver(i, sig); }
        return 0;
    }
    int waitpid(int pid, int *st, int fl) override { int r = ::waitpid(pid, st, fl | WNOHANG); if (r > 0) { int i = find(r); if (i >= 0) H->s[i].dead = true; } return r; }
    void exit(int rc) override { if (helper) ::_exit(rc); H->s[me].rc = rc; sync_(P_EXIT, vmask, false); ::_exit(rc); }
    int sigaction(int sig, const struct sigaction *a, struct sigaction *o) override {
        if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
        if (o) *o = acts[sig]; if (!a) return 0; acts[sig] = *a; struct sigaction r = *a; bool h = a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN;
        if (h) { r.sa_sigaction = tramp; r.sa_flags = (r.sa_flags | SA_SIGINFO) & ~SA_RESTART; } return ::sigaction(sig, &r, nullptr);
    }
    int sigprocmask(int how, const sigset_t *s, sigset_t *o) override {
        if (o) *o = vmask; if (!s) return 0;
        for (int i = 1; i < 65; i++) { bool in = sigismember(s, i) == 1; if (how == SIG_SETMASK) { if (in) sigaddset(&vmask, i); else sigdelset(&vmask, i); } else if (in) { if (how == SIG_BLOCK) sigaddset(&vmask, i); else sigdelset(&vmask, i); } }
        sync_(P_MASK, vmask, false); return 0;
    }
    unsigned alarm(unsigned n) override { Slot &s = H->s[me]; unsigned left = s.alarm ? (s.alarm - H->now + 999) / 1000 : 0; s.alarm = n ? H->now + n * 1000ULL : 0; return left; }
    int sigsuspend(const sigset_t *s) override { sync_(P_CALL, vmask, false, "sigsuspend"); sync_(P_SUSPEND, *s, true); errno = EINTR; return -1; }
    int wait_events(int ms) override {
        sync_(P_CALL, vmask, false, "epoll_wait"); Slot &s = H->s[me]; s.deadline = ms < 0 ? ~0ULL : W.now_ms + ms; s.listening = W.listening().size(); int h = s.handled;
        sync_(P_WAIT, vmask, true); if (s.handled != h) { errno = EINTR; return -1; } return 0;
    }
    void before(const char *c) override { sync_(P_CALL, vmask, false, c); }
};

// ---- the controller
static int N, master = -1, ports, events; static bool stopping; static std::vector<int> old; static uint64_t t_event; static std::string hist;
static bool alive(int i) { return !H->s[i].killed && !H->s[i].dead && !gone(H->s[i].pid); } // a number may have been given to another process since
static void over() { for (int i = 0; i < H->n; i++) if (H->s[i].pid > 0 && alive(i)) ::kill(H->s[i].pid, SIGKILL); }
[[noreturn]] static void bail(const char *fmt, ...) {
    char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    over(); fail("%s (%d workers%s; %s)", b, N, daemon_ ? ", daemon" : "", hist.c_str());
}
static std::string name(int i) { return H->s[i].master ? "the master" : strf("process %d", i); }
static void ended(int i, Before h) { // a process has just ended
    Slot &s = H->s[i]; note("%s ended", name(i).c_str()); s.killed = true;
    if (s.parent >= 0) notified(s.parent, h); else ::waitpid(s.pid, nullptr, WNOHANG);
}
static void step(int i) {
    Slot &s = H->s[i]; note("%lu %s runs from %s %s", (unsigned long)H->now, name(i).c_str(), pname[s.point], s.what);
    bool ex = s.point == P_EXIT, first = i == 0 && daemon_; int rc = s.rc; auto h = before_death(s.parent); s.at = 0; ::kill(s.pid, GO);
    await([&] { return s.at || gone(s.pid); }, "step");
    if (s.at) { for (int k = 0; k < H->n; k++) await([&] { return H->s[k].at || H->s[k].killed || gone(H->s[k].pid); }, "others"); return; }
    if (!ex) bail("%s died by itself", name(i).c_str());
    if (s.master && !stopping) bail("the master ended without a stop request");
    if (!s.master && !first && !s.ints && !stopping) bail("process %d ended although nobody asked it to (status %d)", i, rc);
    if (s.master) for (int k = 0; k < H->n; k++) if (k != i && alive(k) && H->s[k].point != P_EXIT) bail("the master ended, but process %d is still running", k);
    ended(i, h);
}
static std::vector<int> runnable() { std::vector<int> r; for (int i = 0; i < H->n; i++) if (alive(i) && H->s[i].point != P_SUSPEND && H->s[i].point != P_WAIT) r.push_back(i); return r; }
static std::vector<int> workers() { std::vector<int> r; for (int i = 0; i < H->n; i++) if (alive(i) && !H->s[i].master && !(daemon_ && i == 0)) r.push_back(i); return r; }
static std::string pidfile() { std::string p = sim_base() + "logs/pid"; char b[64]; int f = ::open(p.c_str(), O_RDONLY); if (f < 0) return "missing"; ssize_t n = ::read(f, b, 63); ::close(f); return std::string(b, n > 0 ? n : 0); }
static int spawn_main(std::vector<std::string> args, int slot) {
    int p = ::fork(); if (p < 0) { perror("fork"); ::_exit(97); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); sigfillset(&all); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGKILL}) sigdelset(&all, s); sigemptyset(&vmask);
        struct sigaction a{}; a.sa_handler = on_go; sigfillset(&a.sa_mask); ::sigaction(GO, &a, nullptr); static Os os; OS = &os; W.now_ms = H->now;
        if (slot < 0) { helper = true; watchdog(); } else { ::sigprocmask(SIG_SETMASK, &all, nullptr); enter(slot); sync_(P_START, vmask, false); }
        int rc = sim_run_main(args); OS->exit(rc);
    }
    if (slot >= 0) { H->s[slot].pid = p; await([&] { return H->s[slot].at.load(); }, "start"); }
    return p;
}
static void request(int sig) { // by the program's own command line, or a plain signal to the recorded id
    if (sig == SIGHUP) old = workers(); else stopping = true;
    events++; t_event = H->now; hist += sig == SIGHUP ? " reload" : " stop";
    if (G.chance(1, 3)) { std::string f = pidfile(); int pid = atoi(f.c_str()); if (pid == H->s[master].pid && alive(master)) deliver(master, sig); else if (alive(master)) bail("the recorded process id is %s, the master is %d", f.c_str(), (int)H->s[master].pid); }
    else { int p = spawn_main({"s5", sig == SIGHUP ? "-reload" : "-stop"}, -1), st; ::waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bail("the command line tool died (status %x)", st); }
    note("%lu request %d", (unsigned long)H->now, sig);
}
static void shoot() {
    auto w = workers(); if (w.empty()) return; int i = w[G.below(w.size())], sig = G.one({SIGKILL, SIGKILL, SIGTERM});
    note("%lu signal %d kills process %d at %s", (unsigned long)H->now, sig, i, pname[H->s[i].point]); events++; t_event = H->now; hist += strf(" kill(%s)", pname[H->s[i].point]);
    auto h = before_death(H->s[i].parent); ::kill(H->s[i].pid, sig); await([&] { return gone(H->s[i].pid); }, "kill"); ended(i, h);
}
static std::string wrong() { // what is missing for the settled state
    auto w = workers(); std::string f = pidfile();
    if (stopping) { if (alive(master)) return "the master is still running"; if (!w.empty()) return strf("%zu workers are still running", w.size()); if (f != "missing") return "the id file is still there"; return ""; }
    if (!alive(master)) return "the master is gone"; if (f != std::to_string(H->s[master].pid)) return strf("the id file is %s, the master is %d", f.c_str(), (int)H->s[master].pid);
    if ((int)w.size() != N) return strf("%zu of %d workers are running", w.size(), N);
    for (int i : w) { if (H->s[i].point != P_WAIT || H->s[i].listening != ports) return strf("process %d does not serve", i); if (std::count(old.begin(), old.end(), i)) return strf("process %d was running when a reload was requested and still is", i); }
    return "";
}
static void later() { // nothing can happen at this instant
    int b = -1; for (int i = 0; i < H->n; i++) if (alive(i) && H->s[i].point == P_WAIT && H->s[i].deadline != ~0ULL && (b < 0 || H->s[i].deadline < H->s[b].deadline)) b = i;
    int a = -1; for (int i = 0; i < H->n; i++) if (alive(i) && H->s[i].alarm && (a < 0 || H->s[i].alarm < H->s[a].alarm)) a = i;
    if (a >= 0 && (b < 0 || H->s[a].alarm <= H->s[b].deadline)) { if (H->s[a].alarm > H->now) H->now = H->s[a].alarm; H->s[a].alarm = 0; note("%lu alarm of %s", (unsigned long)H->now, name(a).c_str()); deliver(a, SIGALRM); if (gone(H->s[a].pid)) bail("%s died of its own alarm", name(a).c_str()); return; }
    std::string w = wrong(); if (b < 0) { if (w.empty()) return; bail("%s, and nothing is going to change that", w.c_str()); }
    if (H->s[b].deadline > H->now) H->now = H->s[b].deadline; 
    step(b);
}
static void supervise() {
    N = G.range(1, 4); if (G.chance(1, 12)) N = G.range(5, 20); daemon_ = G.chance(1, 4); Conf c; c.http = {80}; if (G.coin()) c.https = {443}; c.home = site_home(); ports = 1 + c.https.size();
    std::string j = c.json(); auto sub = [&](std::string a, std::string b) { j.replace(j.find(a), a.size(), b); }; sub("\"sys_process\":0", strf("\"sys_process\":%d", N)); if (daemon_) sub("\"sys_daemon\":0", "\"sys_daemon\":1");
    sim_set_file("config/config.json", j); sim_set_file("logs/.keep", ""); ::unlink((sim_base() + "logs/pid").c_str());
    GO = SIGRTMIN + 3; H = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); H->now = 1700000000123ULL; prctl(PR_SET_CHILD_SUBREAPER, 1); sigfillset(&all);
    H->n = 1; H->s[0].parent = -1; spawn_main({"s5-under-test"}, 0); int ev = G.below(N > 4 ? 4 : 9); bool deny = G.chance(1, 4); if (deny && G.coin()) { H->deny = 1 + G.below(3); hist += strf(" no-forks(%d)", (int)H->deny); } bool stop = G.chance(3, 4); int rate = G.one({3, 8, 20, 50});
    auto seek = [&] { for (int i = 0; i < H->n; i++) if (alive(i) && H->s[i].point == P_SUSPEND) { master = i; H->s[i].master = true; } };
    for (int n = 0; master < 0; n++) { auto r = runnable(); if (r.empty() || n > 400 + 100 * N) bail("the program does not start"); step(r[G.below(r.size())]); seek(); }
    t_event = H->now; uint64_t advances = 0;
    for (int n = 0;; n++) {
        if (n > 6000 + 1500 * N) { label("long"); over(); return; }
        auto r = runnable(); bool due = ev > 0 || (stop && !stopping) || (stopping && ev > 0);
        if (due && (r.empty() ? !G.chance(1, 4) : G.below(rate) == 0)) {
            if (ev > 0) { ev--; if (deny && !H->deny && G.chance(1, 3)) { H->deny = 1 + G.below(6); hist += strf(" no-forks(%d)", (int)H->deny); } else if (G.coin()) shoot(); else if (alive(master) && !stopping) request(SIGHUP); else if (alive(master) && H->s[master].point != P_EXIT) request(G.coin() ? SIGHUP : SIGINT); if (ev > 0 && stop && !stopping && G.chance(1, 12)) request(SIGINT); }
            else request(SIGINT);
            continue;
        }
        if (!r.empty()) { step(r[G.below(r.size())]); continue; }
        if (!due && wrong().empty()) break;
        if (!due && H->now > t_event + 45000) bail("%s, %lu ms after the last event", wrong().c_str(), (unsigned long)(H->now - t_event));
        if (due && wrong().empty() && stopping) { ev = 0; continue; }
        if (++advances > 200) { label("long"); over(); return; }
        later();
    }
    if (events >= 2) nontrivial(); label(N > 4 ? "workers 5..20" : strf("workers %d", N)); label(stopping ? "stopped" : "kept"); label("events", events); if (H->denied) label("forks refused"); if (daemon_) label("daemon");
    if (want_sample()) sample(strf("%d workers%s:%s", N, daemon_ ? ", daemon" : "", hist.c_str()));
    over();
}

// ---- a process without workers, stopped with connections at any point
static int mode; static int open_; static bool asked;
static Task<> one() { auto h = std::make_shared<std::string>(); co_await hostile(h); }
static Task<> polite() { co_await probe(); }
static Task<> single() {
    int n = G.below(7); for (int i = 0; i < n; i++) { spawn(G.coin() ? one() : polite(), true); if (G.coin()) co_await sleep_ms(G.below(3000)); }
    co_await sleep_ms(G.one<int>({0, 1, 10, 100, 3000, 20000})); for (int i = G.below(60); i > 0; i--) co_await yield_();
    for (auto &s : sim_socks()) open_ += s->kind == Sock::STREAM; asked = true; t_event = W.now_ms; note("[%lu] stop", (unsigned long)W.now_ms);
    ::raise(SIGINT); if (G.coin()) W.interrupt = true;
    co_await sleep_ms(45000); fail("a process without workers is still running 45 s after the stop request");
}
static void left(const char *how) {
    if (!asked) fail("process exited: %s", how);
    std::string f = pidfile(); CHECK(f == "missing", "a process without workers was stopped, but the id file is still there");
    if (open_) nontrivial(); label(strf("single, mode %d", mode)); if (want_sample()) sample(strf("no workers, mode %d, %d connections open at the stop", mode, open_)); engine_done();
}
static bool alone;
void prop_case() { if (!alone) { supervise(); return; } sim_set_file("logs/pid", std::to_string(::getppid())); sim_profile(); mix_install(mode); spawn(single()); }
void prop_setup() {
    alone = G.chance(1, 3); peers_init(); site_build();
    if (!alone) { engine_ready(); prop_case(); engine_done(); }
    mode = 1 + G.below(3); sim_case_entry = prop_case; sim_on_exit = left; sim_boot(tun_conf(mode).json());
}
