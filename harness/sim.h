// Simulated kernel: sockets, edge-triggered epoll, clock and the memory pool of
// the program under test, plus a cooperative scheduler of peer coroutines.
// All of it runs inside the program's epoll_wait call.
#pragma once
#include "engine.h"
#include <coroutine>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <csignal>
#include <netinet/in.h>
#include <sys/epoll.h>

typedef std::string Bytes;

// ---------------------------------------------------------------- coroutines
template <class T = void> struct Task;
struct TaskPromiseBase {
    std::coroutine_handle<> cont;
    std::suspend_always initial_suspend() noexcept { return {}; }
    struct Final {
        bool await_ready() noexcept { return false; }
        template <class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept {
            auto c = h.promise().cont; return c ? c : std::noop_coroutine();
        }
        void await_resume() noexcept {}
    };
    Final final_suspend() noexcept { return {}; }
    void unhandled_exception() { abort(); }
};
template <class T> struct Task {
    struct promise_type : TaskPromiseBase {
        std::optional<T> v;
        Task get_return_object() { return Task{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        void return_value(T x) { v = std::move(x); }
    };
    std::coroutine_handle<promise_type> h;
    explicit Task(std::coroutine_handle<promise_type> h_) : h(h_) {}
    Task(Task &&o) noexcept : h(std::exchange(o.h, nullptr)) {}
    ~Task() { if (h) h.destroy(); }
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) { h.promise().cont = c; return h; }
    T await_resume() { return std::move(*h.promise().v); }
};
template <> struct Task<void> {
    struct promise_type : TaskPromiseBase {
        Task get_return_object() { return Task{std::coroutine_handle<promise_type>::from_promise(*this)}; }
        void return_void() {}
    };
    std::coroutine_handle<promise_type> h;
    explicit Task(std::coroutine_handle<promise_type> h_) : h(h_) {}
    Task(Task &&o) noexcept : h(std::exchange(o.h, nullptr)) {}
    ~Task() { if (h) h.destroy(); }
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) { h.promise().cont = c; return h; }
    void await_resume() {}
};

// ---------------------------------------------------------------- sockets
struct Chunk { enum K { DATA, FIN, RST } k; Bytes d; };
struct Sock {
    enum Kind { LISTEN, STREAM, DGRAM, EPOLL } kind;
    int fd = -1;                    // descriptor while open in the program
    bool open = true, nonblock = false, fresh = true;
    int port = 0;                   // listen: bound port; accepted: local port
    std::deque<std::shared_ptr<Sock>> backlog;
    std::deque<int> accept_errs;
    // stream
    enum Cs { IDLE, CONNECTING, CONNECTED, FAILED } cs = IDLE;
    sockaddr_in dst{}, from{};
    Bytes rx; size_t rxo = 0; bool rx_fin = false, rst = false; int so_error = 0;
    std::deque<Chunk> wire; size_t wire_bytes = 0;  // peer -> program, in flight
    Bytes tx; size_t txo = 0;       // program -> peer, not read by the peer yet
    size_t cap = 1 << 20; bool nospace = false; bool tx_shut = false; bool peer_gone = false; size_t gone_tx = 0;
    size_t rx_total = 0, tx_total = 0, wire_total = 0; bool closed_with_unread = false;
    uint64_t close_time = 0, open_time = 0;
    int splits = 0;                 // small segments still allowed
    int seg = 0;                    // segmentation profile
    // pacing: gaps of up to gap ms between segments; after stall bytes nothing arrives any more (and with freeze nothing is read)
    uint64_t hold = 0, moved = 0; int gap = 0, gaps = 0; size_t dlv = 0, stall = ~(size_t)0; bool freeze = false;
    bool stalled() const { return dlv >= stall; }
    // datagram
    std::deque<std::pair<Bytes, sockaddr_in>> dq; int eagain_sends = 0, send_errno = 0;
    // epoll
    bool inset = false, rdy = false; uint32_t ev = 0; epoll_data_t data{};
    std::string name; bool bad = false; // bad: the peer misbehaves
    size_t rx_avail() const { return rx.size() - rxo; }
    size_t tx_avail() const { return tx.size() - txo; }
    bool writable() const { size_t used = tx.size() - txo; return used < cap && (cap - used) * 2 >= used; }
    uint32_t poll() const;
};
typedef std::shared_ptr<Sock> SockP;

struct ConnectPlan { enum K { ACCEPT, REFUSE, NEVER } k = ACCEPT; int err = 111; uint64_t delay_ms = 0; bool immediate = false; };

struct Sim {
    // configuration of the case
    uint64_t now_ms = 0;            // virtual time
    int ev_first = 2;               // out of 4: chance to hand events to the program before other actions
    int creep = 0; uint64_t creep_left = 0; // time that passes between steps
    int preempt = 0;                // chance/16 that bytes arrive during a system call
    int seg = 0;                    // default segmentation profile
    size_t cap_lo = 1 << 20, cap_hi = 1 << 20; // send buffer sizes
    int eintr = 0;                  // chance/64 of EINTR
    // handlers
    std::function<ConnectPlan(SockP)> on_connect;   // destination in s->dst
    std::function<void(SockP)> on_established;      // outbound connection is up
    std::function<void(SockP, Bytes)> on_dgram;     // datagram sent by the program
    std::function<void()> on_quiescent;             // nothing left to do at this instant
    std::function<void()> on_finish;                // all actors finished
    std::function<int(const char *op)> fault;       // errno to inject or 0
    std::function<void(Sock *)> on_touch;            // the program accepts, reads or writes; null: it waits
    bool finished = false, interrupt = false;       // interrupt: a signal ends the current wait
    // accounting
    uint64_t mono_base = 1600000000000ULL;     // when the machine was started
    int64_t wall_off = 0; std::vector<int64_t> wall_offs{0};     // the wall clock, as opposed to now_ms, which never jumps; all its offsets so far
    int live_socks() const; int live_files = 0; long live_ssl = 0; long live_malloc = 0;
    std::vector<std::string> paths, opens;          // web content paths touched / opened
    std::vector<int> listening() const;
    std::string web_home;
    long steps = 0;
};
extern Sim W;

// pool stand-in
struct Pool { bool real = false; long live = 0; long cls[6] = {0, 0, 0, 0, 0, 0}; long lim[6] = {2048, 1024, 1024, 1024, 1024, 1024}; long fail_after = -1; long allocs = 0; long denied = 0; };
extern Pool POOL;

void sim_boot(const std::string &config_json, bool real_pool = false);  // runs the program; engine_ready at its first wait
extern bool sim_judge_idle; // whether waking up again and again for nothing is a failure
void sim_set_file(const std::string &rel, const std::string &content);  // below the program's base path
std::string sim_base();                                                 // where /usr/local/s5/ is redirected
void sim_profile();                                                     // draws scheduling parameters
void sim_seed_rand();
bool sim_clock_active(bool on);                                         // simulation of clock and pool without booting the program
extern bool sim_in_case, sim_early;                                    // early: the case began before the program was started
extern std::function<void(const char *)> sim_on_exit;                   // the program ends (default: a failure)
extern std::function<void()> sim_case_entry;                            // called at the first wait of the case

// The program's process and signal calls; without one, the worker may not use most of them.
struct SimOs {
    virtual int fork() = 0; virtual int kill(int pid, int sig) = 0; virtual int waitpid(int pid, int *st, int fl) = 0; [[noreturn]] virtual void exit(int rc) = 0;
    virtual int sigaction(int sig, const struct sigaction *a, struct sigaction *o) = 0; virtual int sigprocmask(int how, const sigset_t *s, sigset_t *o) = 0; virtual int sigsuspend(const sigset_t *s) = 0; virtual unsigned alarm(unsigned) { return 0; }
    virtual int wait_events(int ms) = 0; virtual void before(const char *call) = 0;
};
extern SimOs *OS;
int sim_run_main(std::vector<std::string> args);                        // the program's main, in this process

// ---------------------------------------------------------------- peers
std::vector<SockP> sim_socks();              // all the program has open
uint64_t gap_draw(uint64_t max);
SockP dial(int port);                       // a client connects to a listening port
struct Conn {                               // the peer's end of a stream
    SockP s;
    bool fin_sent = false, dead = false; std::shared_ptr<Bytes> tap;   // tap: collects all bytes taken
    explicit Conn(SockP s_) : s(s_) {}
    void put(const Bytes &b);               // onto the wire
    void fin(); void rst(); void close();   // close = fin + no more reads
    size_t readable() const { return s->freeze && s->stalled() ? 0 : s->tx_avail(); }
    bool eof() const { return readable() == 0 && (!s->open || (s->tx_shut && !s->tx_avail())); }
    Bytes take(size_t max);
};
typedef std::shared_ptr<Conn> ConnP;

struct Waiter { std::coroutine_handle<> h; std::function<bool()> cond; uint64_t deadline; bool *timed_out; int id; };
void sim_wait(Waiter w);
struct UntilAw {
    std::function<bool()> cond; uint64_t deadline; bool to = false;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { sim_wait({h, cond, deadline, &to, 0}); }
    bool await_resume() { return !to; }     // false: timed out
};
void clock_step(int64_t ms); void draw_uptime();                     // sets the wall clock
inline UntilAw until(std::function<bool()> c, uint64_t ms = ~0ULL) { return {std::move(c), ms == ~0ULL ? ms : W.now_ms + ms}; }
inline UntilAw yield_() { return {[] { return true; }, ~0ULL}; }
inline UntilAw sleep_ms(uint64_t ms) { return {[] { return false; }, W.now_ms + ms}; }
void spawn(Task<> t, bool background = false);  // background actors do not keep the case alive
int actors_alive();
