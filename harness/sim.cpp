#include "sim.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <dirent.h>
#include <arpa/inet.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <openssl/ssl.h>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/rand.h>

Sim W; Pool POOL;
bool sim_in_case = false, sim_early = false; std::function<void(const char *)> sim_on_exit;
std::function<void()> sim_case_entry; SimOs *OS;
static bool active = false;
static const int VBASE = 100000;
static std::map<int, SockP> fds;
static std::vector<Waiter> waiters;
static int nactors = 0;
static std::string g_base;
static const char *S5P = "/usr/local/s5/";
static const uint64_t STEP_LIMIT = 30000000;
static std::set<int> realfds;
extern "C" int __asan_region_is_poisoned_probe;
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);
extern "C" int s5_main(int, char **);

uint32_t Sock::poll() const {
    uint32_t m = 0;
    switch (kind) {
    case LISTEN: if (!backlog.empty() || !accept_errs.empty()) m |= EPOLLIN; break;
    case DGRAM: if (!dq.empty()) m |= EPOLLIN; if (!eagain_sends) m |= EPOLLOUT; if (so_error) m |= EPOLLERR; break;
    case STREAM:
        if (cs == IDLE) m = EPOLLOUT | EPOLLHUP;
        else if (cs == CONNECTING) m = 0;
        else if (cs == FAILED) m = EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
        else {
            if (rx_avail() || rx_fin || rst) m |= EPOLLIN;
            if (rx_fin || rst) m |= EPOLLRDHUP;
            if (rst || (rx_fin && tx_shut)) m |= EPOLLHUP;
            if (writable() || rst || tx_shut) m |= EPOLLOUT;
            if (so_error) m |= EPOLLERR;
        }
        break;
    default: break;
    }
    return m;
}
static void wake(Sock *s, uint32_t m) { if (s->inset && (m & (s->ev | EPOLLERR | EPOLLHUP))) s->rdy = true; }
bool sim_judge_idle; static long woken, looked, polled; // wake-ups since something happened, of these without a call in between, and polls without a wait
static void happened() { woken = looked = polled = 0; }
static SockP get(int fd) { looked = 0; auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second; }
static SockP newsock(Sock::Kind k) {
    auto s = std::make_shared<Sock>(); s->kind = k;
    int fd = VBASE; while (fds.count(fd)) fd++;
    s->fd = fd; fds[fd] = s; s->open_time = W.now_ms; return s;
}
int Sim::live_socks() const { int n = 0; for (auto &f : fds) n += f.second->kind == Sock::STREAM || f.second->kind == Sock::DGRAM; return n; }
std::vector<int> Sim::listening() const { std::vector<int> v; for (auto &f : fds) if (f.second->kind == Sock::LISTEN) v.push_back(f.second->port); std::sort(v.begin(), v.end()); return v; }
static bool virt(int fd) { return fd >= VBASE; }
static int inject(const char *op) { if (sim_in_case && W.fault) { int e = W.fault(op); if (e) { errno = e; return 1; } } return 0; }

// ---- wire
static size_t seglen(Sock *s, size_t avail) {
    int prof = s->seg;
    if (prof == 0 || s->splits <= 0) return avail;
    s->splits--;
    switch (prof) {
    case 1: return 1;
    case 2: return 1 + G.below(avail);
    case 3: switch (G.below(4)) { case 0: return avail; case 1: return 1; case 2: return 1 + G.below(std::min<size_t>(avail, 8)); default: return 1 + G.below(avail); }
    default: return 1 + G.below(std::min<size_t>(avail, 1500));
    }
}
std::vector<SockP> sim_socks() { std::vector<SockP> v; for (auto &f : fds) v.push_back(f.second); return v; }
uint64_t gap_draw(uint64_t max) { switch (G.below(4)) { case 0: return max; case 1: return max - G.below(std::min<uint64_t>(max, 100)); case 2: return G.below(max + 1); default: return G.below(std::min<uint64_t>(max, 40) + 1); } }
static bool deliverable(const Sock *s) { return !s->wire.empty() && W.now_ms >= s->hold && !s->stalled(); }
static void deliver(Sock *s) {
    if (s->wire.empty()) return;
    Chunk &c = s->wire.front();
    if (!s->open) { s->wire.clear(); s->wire_bytes = 0; return; }
    if (c.k == Chunk::DATA) {
        size_t n = std::min({c.d.size(), seglen(s, c.d.size()), s->stall - s->dlv}); s->dlv += n;
        if (s->rxo > (1 << 16) && s->rxo == s->rx.size()) { s->rx.clear(); s->rxo = 0; }
        s->rx.append(c.d, 0, n); s->wire_bytes -= n;
        if (n == c.d.size()) s->wire.pop_front(); else c.d.erase(0, n);
        note("[%lu] deliver %zu bytes to %s (left %zu)", (unsigned long)W.now_ms, n, s->name.c_str(), s->wire_bytes);
        wake(s, EPOLLIN | EPOLLRDNORM); if (s->gaps > 0 && G.coin()) { s->gaps--; s->hold = W.now_ms + gap_draw(s->gap); }
    } else if (c.k == Chunk::FIN) { s->rx_fin = true; s->wire.pop_front(); note("[%lu] deliver FIN to %s", (unsigned long)W.now_ms, s->name.c_str()); wake(s, EPOLLIN | EPOLLRDHUP); }
    else { s->so_error = s->rx_fin ? EPIPE : ECONNRESET; s->rst = true; s->rx_fin = true; s->wire.pop_front(); note("[%lu] deliver RST to %s", (unsigned long)W.now_ms, s->name.c_str()); wake(s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); }
}
static void preempt() { // bytes may arrive while the program runs
    if (!sim_in_case || !W.preempt || G.below(16) >= (unsigned)W.preempt) return;
    std::vector<Sock *> v; for (auto &f : fds) if (deliverable(f.second.get()) && f.second->cs == Sock::CONNECTED && !f.second->fresh) v.push_back(f.second.get());
    if (!v.empty()) deliver(v[G.below(v.size())]);
}

void Conn::put(const Bytes &b) { if (b.empty() || dead) return; s->wire.push_back({Chunk::DATA, b}); s->wire_bytes += b.size(); s->wire_total += b.size(); }
void Conn::fin() { if (!fin_sent && !dead) { s->wire.push_back({Chunk::FIN, ""}); fin_sent = true; } }
void Conn::rst() { if (!dead) { s->wire.clear(); s->wire_bytes = 0; s->wire.push_back({Chunk::RST, ""}); dead = true; fin_sent = true; s->peer_gone = true; } }
void Conn::close() { fin(); s->peer_gone = true; s->tx.clear(); s->txo = 0; if (s->nospace && s->writable()) { s->nospace = false; wake(s.get(), EPOLLOUT); } }
Bytes Conn::take(size_t max) {
    size_t n = std::min(max, s->tx_avail()); Bytes r = s->tx.substr(s->txo, n); s->txo += n;
    if (s->txo == s->tx.size()) { s->tx.clear(); s->txo = 0; } else if (s->txo > (1 << 16)) { s->tx.erase(0, s->txo); s->txo = 0; }
    if (s->nospace && s->writable()) { s->nospace = false; wake(s.get(), EPOLLOUT | EPOLLWRNORM); }
    if (tap) *tap += r;
    return r;
}
static int clientport = 20000;
SockP dial(int port) {
    for (auto &f : fds) if (f.second->kind == Sock::LISTEN && f.second->port == port) {
        auto s = std::make_shared<Sock>(); s->kind = Sock::STREAM; s->cs = Sock::CONNECTED; s->port = port; s->fresh = true; s->open = true;
        s->seg = W.seg; s->splits = 80; s->cap = G.range(W.cap_lo, W.cap_hi);
        s->from.sin_family = AF_INET; s->from.sin_port = htons(clientport++); s->from.sin_addr.s_addr = htonl(0x0a000001 + (clientport & 0xff));
        f.second->backlog.push_back(s); wake(f.second.get(), EPOLLIN); s->name = strf("c%d:%d", clientport - 1, port);
        return s;
    }
    return nullptr;
}

// ---- scheduler
void sim_wait(Waiter w) { waiters.push_back(std::move(w)); }
struct Detached { struct promise_type { Detached get_return_object() { return {}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { abort(); } }; };
static Detached run_detached(Task<> t, bool bg) { co_await yield_(); co_await t; if (!bg) nactors--; }
void spawn(Task<> t, bool bg) { if (!bg) nactors++; run_detached(std::move(t), bg); }
int actors_alive() { return nactors; }
static void resume(size_t i, bool timeout) {
    Waiter w = waiters[i]; waiters.erase(waiters.begin() + i); *w.timed_out = timeout;
    std::vector<unsigned long> left; while (unsigned long e = ERR_get_error()) left.push_back(e);     // the program's errors are its own, and so are the peers'
    w.h.resume();
    ERR_clear_error(); for (auto e : left) { ERR_new(); ERR_set_error(ERR_GET_LIB(e), ERR_GET_REASON(e), nullptr); }
}

static std::string harvested;
static int harvest(struct epoll_event *evs, int max) {
    std::vector<Sock *> r;
    for (auto &f : fds) { Sock *s = f.second.get(); if (s->inset && s->rdy) { if (s->poll() & (s->ev | EPOLLERR | EPOLLHUP)) r.push_back(s); else s->rdy = false; } }
    if (r.empty()) return 0;
    int want = (int)r.size();
    if (r.size() > 1) { // any order, any subset (the rest "arrives" a moment later)
        switch (G.below(4)) { case 0: break; case 1: want = 1 + G.below(r.size()); break; default: for (size_t i = 0; i + 1 < r.size(); i++) std::swap(r[i], r[i + G.below(r.size() - i)]); if (G.below(3) == 0) want = 1 + G.below(r.size()); }
    }
    want = std::min(want, max); if (sim_judge_idle && want) harvested = r[0]->name; if (W.on_touch) want = 1; // so that what the program does can be told apart by connection
    for (int i = 0; i < want; i++) { evs[i].events = r[i]->poll() & (r[i]->ev | EPOLLERR | EPOLLHUP); evs[i].data = r[i]->data; if (r[i]->ev & EPOLLET) r[i]->rdy = false; note("[%lu] event %s %s%s%s%s", (unsigned long)W.now_ms, r[i]->name.c_str(), evs[i].events & EPOLLIN ? "IN " : "", evs[i].events & EPOLLOUT ? "OUT " : "", evs[i].events & EPOLLERR ? "ERR " : "", evs[i].events & EPOLLHUP ? "HUP" : ""); }
    return want;
}
static bool any_ready() { for (auto &f : fds) { Sock *s = f.second.get(); if (s->inset && s->rdy && (s->poll() & (s->ev | EPOLLERR | EPOLLHUP))) return true; } return false; }

struct PendingConn { SockP s; ConnectPlan p; uint64_t at; };
static std::vector<PendingConn> pconn;
static void finish_connect(PendingConn pc) {
    Sock *s = pc.s.get(); if (!s->open) return; s->moved = W.now_ms;
    if (pc.p.k == ConnectPlan::ACCEPT) { s->cs = Sock::CONNECTED; s->fresh = false; note("[%lu] connected %s", (unsigned long)W.now_ms, s->name.c_str()); wake(s, EPOLLOUT); if (W.on_established) W.on_established(pc.s); }
    else { s->cs = Sock::FAILED; s->so_error = pc.p.err; note("[%lu] connect failed %s %d", (unsigned long)W.now_ms, s->name.c_str(), pc.p.err); wake(s, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); }
}

static std::vector<SockP> wires; // sockets that may carry in-flight bytes (accepted or connected)
extern "C" int sim_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
    steps_reset(~0ULL);
    if (OS) { int r = OS->wait_events(timeout); steps_reset(STEP_LIMIT); return r; }
    if (W.on_touch) W.on_touch(nullptr);
    if (!sim_in_case) { sim_in_case = true; if (!sim_early) engine_ready(); sim_seed_rand(); sim_case_entry(); }
    uint64_t deadline = timeout < 0 ? ~0ULL : W.now_ms + timeout;
    static long spins = 0; static uint64_t last_now = 0, idle = 0;
    for (;;) {
        if (++W.steps > 400000) { label("step-limit"); engine_done(); }
        if (W.creep && W.creep_left && G.below(4) == 0) { uint64_t d = std::min<uint64_t>(W.creep_left, 1 + G.below(W.creep)); W.now_ms += d; W.creep_left -= d; if (W.now_ms >= deadline) deadline = W.now_ms; }
        if (W.interrupt) { W.interrupt = false; errno = EINTR; steps_reset(STEP_LIMIT); return -1; }
        bool rdy = any_ready();
        if (rdy && G.below(4) < (unsigned)W.ev_first) goto give;
        {
            // collect actions
            std::vector<std::pair<int, size_t>> acts;
            wires.clear();
            for (auto &f : fds) { Sock *s = f.second.get(); if (s->kind == Sock::STREAM && s->cs == Sock::CONNECTED && deliverable(s)) { wires.push_back(f.second); acts.push_back({0, wires.size() - 1}); }
                if (s->kind == Sock::LISTEN) for (auto &b : s->backlog) if (deliverable(b.get())) { wires.push_back(b); acts.push_back({0, wires.size() - 1}); } }
            for (size_t i = 0; i < waiters.size(); i++) { if (W.now_ms >= waiters[i].deadline || waiters[i].cond()) acts.push_back({1, i}); }
            for (size_t i = 0; i < pconn.size(); i++) if (pconn[i].at <= W.now_ms && pconn[i].p.k != ConnectPlan::NEVER) acts.push_back({2, i});
            if (!acts.empty()) {
                idle = 0; happened(); auto a = acts[G.below(acts.size())];
                if (a.first == 0) deliver(wires[a.second].get());
                else if (a.first == 1) { bool c = waiters[a.second].cond(); resume(a.second, !c); }
                else { auto pc = pconn[a.second]; pconn.erase(pconn.begin() + a.second); finish_connect(pc); }
                continue;
            }
        }
        if (rdy) goto give;
        // nothing can happen at this instant
        if (W.on_quiescent) { size_t n = waiters.size(); int na = nactors; uint64_t t = W.now_ms; W.on_quiescent(); if (waiters.size() != n || nactors != na || W.now_ms != t || any_ready()) continue; }
        if (nactors == 0 && !W.finished) { W.finished = true; if (W.on_finish) { W.on_finish(); continue; } engine_done(); }
        if (nactors == 0 && W.finished) engine_done();
        {
            uint64_t next = deadline; for (auto &w : waiters) next = std::min(next, w.deadline); for (auto &p : pconn) if (p.p.k != ConnectPlan::NEVER) next = std::min(next, p.at);
            bool held = false; auto hold = [&](Sock *s) { if (!s->wire.empty() && !s->stalled() && s->hold > W.now_ms) { next = std::min(next, s->hold); held = true; } };
            for (auto &f : fds) { Sock *s = f.second.get(); if (s->kind == Sock::STREAM && s->cs == Sock::CONNECTED) hold(s); if (s->kind == Sock::LISTEN) for (auto &b : s->backlog) hold(b.get()); }
            if (next == ~0ULL) fail("the program waits for ever while peers still expect something");
            bool timed = held; for (auto &w : waiters) if (w.deadline != ~0ULL) timed = true; for (auto &p : pconn) if (p.p.k != ConnectPlan::NEVER) timed = true;
            if (!timed && next > W.now_ms) { idle += next - W.now_ms; if (idle > 300000) fail("a peer still expects something after five minutes in which nothing happened"); }
            if (next > W.now_ms) { happened(); W.now_ms = next; note("[%lu] time", (unsigned long)W.now_ms); }
            bool other = false; for (auto &w : waiters) if (w.deadline <= W.now_ms) other = true; for (auto &p : pconn) if (p.p.k != ConnectPlan::NEVER && p.at <= W.now_ms) other = true;
            if (deadline <= W.now_ms && !(other && G.coin())) {
                if (timeout == 0) { if (sim_judge_idle && ++polled > 100) fail("the program asks for events without waiting %ld times in a row although nothing happens", polled); if (last_now == W.now_ms) spins++; else spins = 0; last_now = W.now_ms; if (spins > 3) { W.now_ms++; spins = 0; } }
                steps_reset(STEP_LIMIT); return 0;
            }
            continue;
        }
    give:
        if (W.eintr && G.below(64) < (unsigned)W.eintr) { errno = EINTR; steps_reset(STEP_LIMIT); return -1; }
        int n = harvest(evs, max);
        if (n) { idle = 0; polled = 0; if (sim_judge_idle && (++woken > 30000 || ++looked > 300)) fail("the program is woken for %s %ld times in a row although nothing happens", harvested.c_str(), woken); steps_reset(STEP_LIMIT); return n; }
    }
}

// ---- system calls of the program
extern "C" {
int sim_epoll_pwait(int a, struct epoll_event *b, int c, int d, const void *) { return sim_epoll_wait(a, b, c, d); }
int sim_epoll_create1(int) { return newsock(Sock::EPOLL)->fd; }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int, int op, int fd, struct epoll_event *e) {
    auto s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (inject("epoll_ctl")) return -1;
    if (op == EPOLL_CTL_DEL) { if (!s->inset) { errno = ENOENT; return -1; } s->inset = false; s->rdy = false; return 0; }
    if (op == EPOLL_CTL_ADD && s->inset) { errno = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !s->inset) { errno = ENOENT; return -1; }
    s->inset = true; s->ev = e->events; s->data = e->data;
    if (s->poll() & (s->ev | EPOLLERR | EPOLLHUP)) s->rdy = true;
    if (s->kind == Sock::STREAM && !s->writable()) s->nospace = true; // like tcp_poll
    return 0;
}
int sim_socket(int dom, int type, int) {
    if (inject("socket")) return -1;
    auto s = newsock((type & 0xf) == SOCK_DGRAM ? Sock::DGRAM : Sock::STREAM); s->nonblock = type & SOCK_NONBLOCK;
    s->name = strf("u%d", s->fd - VBASE); return s->fd;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (inject("bind")) return -1; int p = ntohs(((const sockaddr_in *)a)->sin_port); s->port = ((const sockaddr_in *)a)->sin_addr.s_addr ? 0x10000 + p : p; return 0; } // peers are on other machines
int sim_listen(int fd, int) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (inject("listen")) return -1; s->kind = Sock::LISTEN; s->name = strf("L%d", s->port); return 0; }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *al, int fl) {
    auto l = get(fd); if (!l) { errno = EBADF; return -1; }
    if (l->kind != Sock::LISTEN) { errno = EINVAL; return -1; }
    preempt();
    if (!l->accept_errs.empty()) { errno = l->accept_errs.front(); l->accept_errs.pop_front(); return -1; }
    if (l->backlog.empty()) { if (!l->nonblock) fail("blocking accept"); errno = EAGAIN; return -1; }
    if (inject("accept")) return -1;
    auto s = l->backlog.front(); l->backlog.pop_front();
    int nfd = VBASE; while (fds.count(nfd)) nfd++;
    s->fd = nfd; s->fresh = false; s->open_time = W.now_ms; fds[nfd] = s; s->nonblock = fl & SOCK_NONBLOCK;
    if (a && al) { memcpy(a, &s->from, std::min<size_t>(*al, sizeof s->from)); *al = sizeof s->from; }
    s->moved = W.now_ms; note("[%lu] accept %s", (unsigned long)W.now_ms, s->name.c_str()); if (W.on_touch) W.on_touch(s.get());
    return nfd;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *al) { return sim_accept4(fd, a, al, 0); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t) {
    auto s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind == Sock::DGRAM) { s->dst = *(const sockaddr_in *)a; return 0; }
    if (s->cs == Sock::CONNECTING) { errno = EALREADY; return -1; }
    if (s->cs == Sock::CONNECTED) { errno = EISCONN; return -1; }
    if (!s->nonblock) fail("blocking connect");
    s->dst = *(const sockaddr_in *)a; s->seg = W.seg; s->splits = 80; s->cap = G.range(W.cap_lo, W.cap_hi);
    s->name = strf("up%d>%s:%d", s->fd - VBASE, inet_ntoa(s->dst.sin_addr), ntohs(s->dst.sin_port));
    s->moved = W.now_ms; note("[%lu] connect %s", (unsigned long)W.now_ms, s->name.c_str());
    if (inject("connect")) { s->cs = Sock::FAILED; return -1; }
    ConnectPlan p = W.on_connect ? W.on_connect(s) : ConnectPlan{ConnectPlan::REFUSE};
    if (p.immediate) {
        if (p.k == ConnectPlan::ACCEPT) { s->cs = Sock::CONNECTED; s->fresh = false; if (W.on_established) W.on_established(s); wake(s.get(), EPOLLOUT); return 0; }
        if (p.k == ConnectPlan::REFUSE) { s->cs = Sock::FAILED; errno = p.err; return -1; }
    }
    s->cs = Sock::CONNECTING; pconn.push_back({s, p, W.now_ms + p.delay_ms}); errno = EINPROGRESS; return -1;
}
static ssize_t do_send(Sock *s, const void *b, size_t n, int flags) {
    if (W.on_touch) W.on_touch(s);
    preempt();
    if (s->kind == Sock::DGRAM) { errno = EDESTADDRREQ; return -1; }
    if (s->cs == Sock::CONNECTING) { errno = EAGAIN; s->nospace = true; return -1; }
    if (s->cs != Sock::CONNECTED || s->tx_shut || s->rst) {
        int e = s->so_error ? s->so_error : EPIPE; s->so_error = 0; if (e == EPIPE && !(flags & MSG_NOSIGNAL)) { label("sigpipe"); raise(SIGPIPE); }
        errno = e; return -1;
    }
    if (inject("send")) { if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) { label("sigpipe"); raise(SIGPIPE); errno = EPIPE; } return -1; }
    if (n && __asan_region_is_poisoned((void *)b, n)) fail("send reads %zu bytes outside the program's buffer", n);
    if (s->peer_gone) { if (!s->rst) { bool has = false; for (auto &c : s->wire) has |= c.k == Chunk::RST; if (!has) { s->wire.clear(); s->wire_bytes = 0; s->wire.push_back({Chunk::RST, ""}); } } if (s->gone_tx > s->cap) { s->nospace = true; errno = EAGAIN; return -1; } s->gone_tx += n; s->tx_total += n; return n; } // unacknowledged until the reset arrives
    size_t used = s->tx_avail(), room = used < s->cap ? s->cap - used : 0;
    if (!room) { s->nospace = true; if (!s->nonblock) fail("blocking send"); errno = EAGAIN; return -1; }
    if (n > room) { n = room; s->nospace = true; }
    s->tx.append((const char *)b, n); s->tx_total += n; s->moved = W.now_ms; return n;
}
static ssize_t do_recv(Sock *s, void *b, size_t n, int flags) {
    if (W.on_touch) W.on_touch(s);
    if (s->kind == Sock::DGRAM) {
        if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
        if (s->dq.empty()) { if (!s->nonblock) fail("blocking recv on datagram socket"); errno = EAGAIN; return -1; }
        s->moved = W.now_ms; auto &d = s->dq.front(); size_t m = std::min(n, d.first.size()); if (n && __asan_region_is_poisoned(b, n)) fail("recv would write %zu bytes outside the program's buffer", n);
        memcpy(b, d.first.data(), m); if (!(flags & MSG_PEEK)) s->dq.pop_front(); return m;
    }
    if (s->cs == Sock::FAILED) { if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; } return 0; }
    if (s->cs == Sock::IDLE) { errno = ENOTCONN; return -1; }
    if (n && __asan_region_is_poisoned(b, n)) fail("recv would write %zu bytes outside the program's buffer", n);
    size_t av = s->rx_avail();
    if (!n) return 0;
    if (!av) {
        if (s->rst && s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
        if (s->rx_fin) return 0;
        if (!s->nonblock) fail("blocking recv");
        errno = EAGAIN; preempt(); errno = EAGAIN; return -1;
    }
    if (inject("recv")) return -1;
    size_t m = std::min(av, n); memcpy(b, s->rx.data() + s->rxo, m); s->moved = W.now_ms;
    if (!(flags & MSG_PEEK)) { s->rxo += m; s->rx_total += m; if (s->rxo == s->rx.size()) { s->rx.clear(); s->rxo = 0; } }
    if (m == av) preempt();
    return m;
}
ssize_t sim_recv(int fd, void *b, size_t n, int f) { auto s = get(fd); if (!s) { if (virt(fd) || active) { errno = EBADF; return -1; } return ::recv(fd, b, n, f); } return do_recv(s.get(), b, n, f); }
ssize_t sim_send(int fd, const void *b, size_t n, int f) { auto s = get(fd); if (!s) { if (virt(fd) || active) { errno = EBADF; return -1; } return ::send(fd, b, n, f); } 
    if (s->kind == Sock::DGRAM) { s->moved = W.now_ms; if (W.on_dgram) W.on_dgram(s, Bytes((const char *)b, n)); return n; } return do_send(s.get(), b, n, f); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    auto s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind != Sock::DGRAM) return do_send(s.get(), b, n, f);
    if (a) s->dst = *(const sockaddr_in *)a;
    if (s->send_errno) { errno = s->send_errno; s->send_errno = 0; return -1; }
    if (inject("sendto")) return -1;
    if (s->eagain_sends > 0) { errno = EAGAIN; return -1; }
    if (n && __asan_region_is_poisoned((void *)b, n)) fail("sendto reads %zu bytes outside the program's buffer", n);
    s->moved = W.now_ms; note("[%lu] datagram of %zu bytes", (unsigned long)W.now_ms, n);
    if (W.on_dgram) W.on_dgram(s, Bytes((const char *)b, n)); return n;
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    auto s = get(fd); if (!s) { errno = EBADF; return -1; }
    sockaddr_in from{}; if (s->kind == Sock::DGRAM && !s->dq.empty()) from = s->dq.front().second;
    ssize_t r = do_recv(s.get(), b, n, f); if (r >= 0 && a && l) { memcpy(a, &from, std::min<size_t>(*l, sizeof from)); *l = sizeof from; } return r;
}
ssize_t sim_read(int fd, void *b, size_t n) { auto s = get(fd); if (s) return do_recv(s.get(), b, n, 0); if (virt(fd)) { errno = EBADF; return -1; } if (n && __asan_region_is_poisoned(b, n)) fail("read would write outside the program's buffer"); return ::read(fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { auto s = get(fd); if (s) return do_send(s.get(), b, n, 0); if (virt(fd)) { errno = EBADF; return -1; } if (n && __asan_region_is_poisoned((void *)b, n)) fail("write reads %zu bytes outside the program's buffer", n); return ::write(fd, b, n); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int) { return sim_writev(fd, m->msg_iov, m->msg_iovlen); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int) { return sim_readv(fd, m->msg_iov, m->msg_iovlen); }
ssize_t sim_sendfile(int out, int in, off_t *off, size_t n) { char b[65536]; n = std::min(n, sizeof b); ssize_t r = off ? ::pread(in, b, n, *off) : ::read(in, b, n); if (r <= 0) return r; ssize_t w = sim_write(out, b, r); if (w < 0) { if (!off) ::lseek(in, -r, SEEK_CUR); return w; } if (off) *off += w; else if (w < r) ::lseek(in, w - r, SEEK_CUR); return w; }
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (inject("setsockopt")) return -1; return 0; }
int sim_getsockopt(int fd, int lvl, int o, void *v, socklen_t *l) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (lvl == SOL_SOCKET && o == SO_ERROR) { *(int *)v = s->so_error; s->so_error = 0; } else memset(v, 0, *l); return 0; }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(s->port); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } memcpy(a, s->from.sin_family ? &s->from : &s->dst, std::min<size_t>(*l, sizeof s->from)); return 0; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    auto s = get(fd); if (!s) { if (virt(fd)) { errno = EBADF; return -1; } return ::fcntl(fd, cmd, arg); }
    if (inject("fcntl")) return -1;
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; } return 0;
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); void *arg = va_arg(ap, void *); va_end(ap); auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (r == FIONBIO) s->nonblock = *(int *)arg; else if (r == FIONREAD) *(int *)arg = s->rx_avail(); return 0; }
int sim_shutdown(int fd, int how) { auto s = get(fd); if (!s) { errno = EBADF; return -1; } if (how != SHUT_RD) s->tx_shut = true; if (how != SHUT_WR) s->rx_fin = true; return 0; }
int sim_close(int fd) {
    auto s = get(fd);
    if (!s) { if (virt(fd)) { errno = EBADF; return -1; } if (realfds.erase(fd)) W.live_files--; return ::close(fd); }
    note("[%lu] close %s", (unsigned long)W.now_ms, s->name.c_str());
    s->open = false; s->inset = false; s->close_time = W.now_ms; s->closed_with_unread = s->rx_avail() > 0;
    if (s->kind == Sock::LISTEN) for (auto &b : s->backlog) b->open = false;
    fds.erase(fd); return 0;
}
int sim_dup(int fd) { if (virt(fd)) fail("dup of a socket is not simulated"); return ::dup(fd); }
int sim_dup2(int a, int b) { if (virt(a) || virt(b)) fail("dup2 of a socket is not simulated"); return 0; }
int sim_poll(void *, unsigned long, int) { return 0; }
int sim_select(int, void *, void *, void *, struct timeval *) { return 0; }
// clock
static uint64_t wall_ms() { return W.now_ms + W.wall_off; }
int sim_gettimeofday(struct timeval *tv, void *) { if (!active) return ::gettimeofday(tv, nullptr); uint64_t t = wall_ms(); tv->tv_sec = t / 1000; tv->tv_usec = (t % 1000) * 1000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { if (!active) return ::clock_gettime(c, ts); uint64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? wall_ms() : W.now_ms - W.mono_base; ts->tv_sec = t / 1000; ts->tv_nsec = (t % 1000) * 1000000; return 0; }
time_t sim_time(time_t *t) { time_t r = active ? (time_t)(wall_ms() / 1000) : ::time(nullptr); if (t) *t = r; return r; }
int sim_usleep(useconds_t u) { if (!active) return 0; W.now_ms += u / 1000; return 0; }
unsigned sim_sleep(unsigned s) { W.now_ms += s * 1000ull; return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { W.now_ms += t->tv_sec * 1000 + t->tv_nsec / 1000000; return 0; }
int sim_setpriority(int, int, int) { return 0; }
// files: the program's base directory is redirected to the scratch directory
static std::string mapped(const char *p) { if (!strncmp(p, S5P, strlen(S5P))) return g_base + (p + strlen(S5P)); return p; }
static bool own(const char *p) { return !strncmp(p, S5P, strlen(S5P)); }
static void touch(const char *p) { if (sim_in_case && !own(p)) W.paths.push_back(p); }
static int opened(int fd, const char *p) { if (fd >= 0) { realfds.insert(fd); W.live_files++; } return fd; }
int sim_open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); touch(p); if (sim_in_case && !own(p)) W.opens.push_back(p); if (inject("open")) return -1;
    if (!own(p) && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && strncmp(p, "/dev/", 5)) { fail("the program opens %s for writing", p); }
    return opened(::open(mapped(p).c_str(), fl, mode), p); }
int sim_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return sim_open(p, fl, mode); }
int sim_openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD || *p == '/') return sim_open(p, fl, mode); touch(p); W.opens.push_back(p); return opened(::openat(d, p, fl & ~(O_CREAT | O_TRUNC)), p); }
int sim_openat64(int d, const char *p, int fl, ...) { return sim_openat(d, p, fl, 0); }
FILE *sim_fopen(const char *p, const char *m) { touch(p); if (sim_in_case && !own(p)) W.opens.push_back(p); if (inject("open")) return nullptr; if (!own(p) && *m != 'r') fail("the program opens %s for writing", p); return ::fopen(mapped(p).c_str(), m); }
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_stat(const char *p, struct stat *st) { touch(p); return ::stat(mapped(p).c_str(), st); }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { touch(p); return ::lstat(mapped(p).c_str(), st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_lstat(p, st); }
int sim_fstatat(int d, const char *p, struct stat *st, int f) { touch(p); return ::fstatat(d, mapped(p).c_str(), st, f); }
int sim_access(const char *p, int m) { touch(p); return ::access(mapped(p).c_str(), m); }
int sim_faccessat(int d, const char *p, int m, int f) { touch(p); return ::faccessat(d, mapped(p).c_str(), m, f); }
int sim_unlink(const char *p) { if (!own(p)) fail("the program unlinks %s", p); if (OS) OS->before("unlink"); return ::unlink(mapped(p).c_str()); }
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) { if (!own(a) || !own(b)) fail("the program renames %s", a); return ::rename(mapped(a).c_str(), mapped(b).c_str()); }
DIR *sim_opendir(const char *p) { touch(p); return ::opendir(mapped(p).c_str()); }
// processes: a worker has no business with these
int sim_fork() { if (OS) return OS->fork(); fail("the worker forks"); } int sim_vfork() { fail("the worker forks"); } int sim_execve(const char *, char *const *, char *const *) { fail("exec"); } int sim_execv(const char *, char *const *) { fail("exec"); } int sim_execvp(const char *, char *const *) { fail("exec"); } int sim_system(const char *) { fail("system"); } FILE *sim_popen(const char *, const char *) { fail("popen"); }
int sim_kill(int pid, int sig) { if (OS) return OS->kill(pid, sig); fail("the worker sends signal %d to %d", sig, pid); }
static int boot_pid; int sim_getpid() { return OS || !boot_pid ? ::getpid() : boot_pid; } // one process to the program, though every case is a fork of it
int sim_waitpid(int p, int *st, int fl) { return OS ? OS->waitpid(p, st, fl) : (errno = ECHILD, -1); } int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { return OS ? OS->sigaction(s, a, o) : ::sigaction(s, a, o); }
void (*sim_signal(int s, void (*h)(int)))(int) { struct sigaction a{}, o{}; a.sa_handler = h; return sim_sigaction(s, &a, &o) ? SIG_ERR : o.sa_handler; }
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { return OS ? OS->sigprocmask(how, s, o) : ::sigprocmask(how, s, o); }
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }
unsigned sim_alarm(unsigned n) { if (OS) return OS->alarm(n); fail("the worker sets an alarm"); }
int sim_sigsuspend(const sigset_t *s) { return OS ? OS->sigsuspend(s) : ::sigsuspend(s); }
void sim_exit(int c) { if (OS) OS->exit(c);  if (sim_on_exit) sim_on_exit("exit"); fail("process exited: exit(%d) called by the program", c); }
void sim__exit(int c) { if (OS) OS->exit(c); if (sim_on_exit) sim_on_exit("_exit"); fail("process exited: _exit(%d) called by the program", c); }
// heap
void *sim_malloc(size_t n) { void *p = ::malloc(n); if (p) { W.live_malloc++; memset(p, 0xa5, std::min<size_t>(n, 1 << 16)); } return p; } // not zero by chance
int (*sim_mutex)(void *, int); // 0 lock, 1 try, 2 unlock; unset: the real ones
int sim_pthread_mutex_lock(pthread_mutex_t *m) { if (sim_mutex) return sim_mutex(m, 0); int r = pthread_mutex_trylock(m); if (r == EBUSY) fail("the only thread waits for a lock that it holds itself"); return r; } int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return sim_mutex ? sim_mutex(m, 1) : pthread_mutex_trylock(m); } int sim_pthread_mutex_unlock(pthread_mutex_t *m) { return sim_mutex ? sim_mutex(m, 2) : pthread_mutex_unlock(m); }
void *sim_calloc(size_t a, size_t b) { void *p = ::calloc(a, b); if (p) W.live_malloc++; return p; }
void *sim_realloc(void *o, size_t n) { void *p = ::realloc(o, n); if (p && !o) W.live_malloc++; return p; }
int sim_posix_memalign(void **o, size_t a, size_t n) { int r = ::posix_memalign(o, a, n); if (!r) W.live_malloc++; return r; }
char *sim_strdup(const char *s) { W.live_malloc++; return ::strdup(s); }
void sim_free(void *p) { if (p) W.live_malloc--; ::free(p); }
// TLS over simulated sockets
static int bio_w(BIO *b, const char *d, int n) { BIO_clear_retry_flags(b); int fd = (int)(intptr_t)BIO_get_data(b); ssize_t r = sim_write(fd, d, n); if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_retry_write(b); return r; }
static int bio_r(BIO *b, char *d, int n) { BIO_clear_retry_flags(b); int fd = (int)(intptr_t)BIO_get_data(b); ssize_t r = sim_read(fd, d, n); if (r < 0 && (errno == EAGAIN || errno == EINTR)) BIO_set_retry_read(b); if (r == 0) BIO_set_flags(b, BIO_FLAGS_IN_EOF); return r; }
static long bio_ctl(BIO *b, int cmd, long, void *) { if (cmd == BIO_CTRL_FLUSH || cmd == BIO_CTRL_DUP) return 1; if (cmd == BIO_CTRL_EOF) return BIO_test_flags(b, BIO_FLAGS_IN_EOF) != 0; return 0; }
static BIO *mkbio(int fd) { static BIO_METHOD *m; if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "sim"); BIO_meth_set_write(m, bio_w); BIO_meth_set_read(m, bio_r); BIO_meth_set_ctrl(m, bio_ctl); } BIO *b = BIO_new(m); BIO_set_data(b, (void *)(intptr_t)fd); BIO_set_init(b, 1); return b; }
int sim_SSL_set_fd(SSL *s, int fd) { BIO *b = mkbio(fd); SSL_set_bio(s, b, b); return 1; }
int sim_SSL_set_rfd(SSL *s, int fd) { SSL_set0_rbio(s, mkbio(fd)); return 1; }
int sim_SSL_set_wfd(SSL *s, int fd) { SSL_set0_wbio(s, mkbio(fd)); return 1; }
BIO *sim_BIO_new_socket(int fd, int) { return mkbio(fd); }
SSL *sim_SSL_new(SSL_CTX *c) { if (inject("SSL_new")) { ERR_raise(ERR_LIB_SSL, ERR_R_MALLOC_FAILURE); return nullptr; } SSL *s = SSL_new(c); if (s) W.live_ssl++; return s; }
void sim_SSL_free(SSL *s) { if (s) W.live_ssl--; SSL_free(s); }
// memory pool
void *__real_mem_pool_alloc(int); int __real_mem_pool_free(void *);
static int pclass(int n) { int c = 512; for (int i = 0; i < 6; i++, c *= 2) if (n <= c) return i; return -1; }
static std::map<void *, int> pblocks;
void *__wrap_mem_pool_alloc(int n) {
    if (sim_in_case && POOL.fail_after >= 0 && POOL.allocs++ >= POOL.fail_after && (POOL.allocs - POOL.fail_after) <= POOL.denied) return nullptr;
    if (!active || POOL.real) { void *p = __real_mem_pool_alloc(n); if (p) POOL.live++; return p; }
    int k = n > 0 ? pclass(n) : -1;
    if (n <= 0) return __real_mem_pool_alloc(n); // let the real one object
    if (k < 0) return nullptr;
    if (POOL.cls[k] >= POOL.lim[k]) return nullptr;
    void *p = ::calloc(1, std::min(n + 8, 512 << k)); /* the real block is larger and zeroed: a string without its NUL is not an over-read */ POOL.cls[k]++; POOL.live++; pblocks[p] = k; return p;
}
int __wrap_mem_pool_free(void *p) {
    if (!active || POOL.real) { if (p) POOL.live--; return __real_mem_pool_free(p); }
    if (!p) return __real_mem_pool_free(p);
    auto it = pblocks.find(p);
    if (it == pblocks.end()) { volatile char c = *(char *)p; (void)c; fail("mem_pool_free of an address that is not a live block"); }
    POOL.cls[it->second]--; POOL.live--; pblocks.erase(it); ::free(p); return 0;
}
}

static uint64_t rstate = 88172645463325252ULL;
static int rnd_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { rstate ^= rstate << 13; rstate ^= rstate >> 7; rstate ^= rstate << 17; b[i] = (unsigned char)(rstate >> 24); } return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rmeth = {nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status};
void sim_seed_rand() { rstate = 88172645463325252ULL ^ (G.below(1 << 20) * 0x9e3779b97f4a7c15ULL); }

std::string sim_base() { if (g_base.empty()) g_base = std::string(scratch_dir()) + "/s5/"; return g_base; }
void sim_set_file(const std::string &rel, const std::string &content) {
    std::string p = sim_base() + rel; for (size_t i = sim_base().size() - 1; i < p.size(); i++) if (p[i] == '/') ::mkdir(p.substr(0, i).c_str(), 0755);
    FILE *f = ::fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(98); } fwrite(content.data(), 1, content.size(), f); fclose(f);
}
void sim_profile() {
    W.ev_first = G.one({2, 3, 1, 4, 0});
    W.seg = (int)G.weighted({2, 1, 2, 3, 2});
    W.preempt = G.one({0, 0, 1, 4});
    W.creep = G.one({0, 0, 3, 20}); W.creep_left = 2500;
    switch (G.below(5)) { case 0: case 1: W.cap_lo = W.cap_hi = 1 << 20; break; case 2: W.cap_lo = 1; W.cap_hi = 300; break; case 3: W.cap_lo = 1000; W.cap_hi = 20000; break; case 4: W.cap_lo = 1; W.cap_hi = 100000; break; }
    W.eintr = G.one({0, 0, 0, 4});
}
int sim_run_main(std::vector<std::string> args) {
    boot_pid = ::getpid(); RAND_set_rand_method(&rmeth); active = true; steps_reset(STEP_LIMIT * 4);
    std::string flat; for (auto &a : args) flat += a + '\0'; // one block, as the kernel lays the arguments out
    char *b = (char *)::malloc(flat.size()); memcpy(b, flat.data(), flat.size()); std::vector<char *> v; char *x = b; for (auto &a : args) { v.push_back(x); x += a.size() + 1; } v.push_back(nullptr);
    return s5_main(args.size(), v.data());
}
// how long the machine has been up: counters of milliseconds may pass 2^31 or 2^32 during the case
void draw_uptime() { uint64_t up = G.one<uint64_t>({100000000000ULL, 100000000000ULL, 0, 3000, 1ULL << 31, 1ULL << 32, 86400000ULL * 400}); if (up >> 31 == 1 || up >> 32 == 1) up -= G.below(G.one({2000, 40000, 600000})); W.mono_base = W.now_ms - up; }
void sim_boot(const std::string &cfg, bool real_pool) {
    sim_set_file("config/config.json", cfg); sim_set_file("logs/.keep", "");
    POOL.real = real_pool; W.now_ms = 1700000000000ULL + 123; draw_uptime();
    int rc = sim_run_main({"s5-under-test"});
    if (sim_on_exit) sim_on_exit("return from main");
    fail("process exited: the program's main returned %d", rc);
}
void sim_wake_dgram(SockP s) { wake(s.get(), EPOLLIN); }
bool sim_clock_active(bool on) { return active = on; }
void clock_step(int64_t ms) { W.wall_off += ms; W.wall_offs.push_back(W.wall_off); note("[%lu] the clock is set to %lu", (unsigned long)W.now_ms, (unsigned long)(W.now_ms + W.wall_off)); }
