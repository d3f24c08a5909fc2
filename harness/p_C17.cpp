// Timers: model-based histories (set, re-set, cancel, advance, callbacks that set
// and cancel) against a reference list, under a virtual clock.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>

const char *prop_rule = "a case is a history of 1..400 timer operations (set/re-set/cancel/advance/expire, callbacks that set or cancel other timers) over 1..1600 timers; non-trivial when at least 3 timers fired and at least one was cancelled or re-set while others were pending";
long prop_cases_quick = 12000, prop_cases_thorough = 150000;
int prop_batch = 200;

struct T { void *t; int id; bool armed = false; long long due = 0; int fired = 0; std::vector<std::pair<int, int>> on_fire; /* (timer, delay or -1 cancel) */ };
static std::vector<T> ts; static long long now_; static std::vector<int> fired; static int cancels, armedn, refused; static int CAPN = 0;
static long long last_due;
static std::string hist;

static void cb(void *d);
static void do_set(int i, int delay) {
    T &t = ts[i]; bool was = t.armed; int others = armedn - (was ? 1 : 0);
    int rc = sh_tm_add(t.t, cb, &t, delay);
    if (was) cancels++;
    if (others >= CAPN) { CHECK(rc != 0, "timer beyond the capacity of %d was accepted", CAPN); if (was) armedn--; t.armed = false; refused++; return; }
    CHECK(rc == 0, "setting timer %d failed with %d timers pending (capacity %d)", i, others, CAPN);
    armedn = others + 1; t.armed = true; t.due = now_ + delay;
}
static void do_cancel(int i) { T &t = ts[i]; CHECK(sh_tm_del(t.t) == 0, "cancelling timer %d failed", i); if (t.armed) { armedn--; cancels++; } t.armed = false; }
static void cb(void *d) {
    T &t = *(T *)d;
    CHECK(t.armed, "timer %d fired although it is not set%s", t.id, t.fired ? " (fired twice or cancelled)" : "");
    CHECK(t.due <= now_, "timer %d fired %lld ms early", t.id, t.due - now_);
    CHECK(t.due >= last_due, "timer %d (due %lld) fired after a timer due %lld", t.id, t.due, last_due);
    last_due = t.due; t.armed = false; armedn--; t.fired++; fired.push_back(t.id);
    auto acts = t.on_fire; t.on_fire.clear();
    for (auto &a : acts) if (a.second < 0) do_cancel(a.first); else do_set(a.first, a.second);
}
static void expire() {
    int wait = -12345; last_due = -1; sh_timer_expire(&wait);
    long long next = -1;
    for (auto &t : ts) if (t.armed) { CHECK(t.due > now_, "timer %d is overdue by %lld ms but did not fire", t.id, now_ - t.due); if (next < 0 || t.due < next) next = t.due; }
    CHECK(wait != -12345 && wait >= 0, "no wait time reported (%d)", wait);
    if (next >= 0) CHECK(wait <= next - now_, "reported wait %d ms exceeds the %lld ms to the next deadline", wait, next - now_);
    if (next >= 0) CHECK(wait > 0, "reported wait is 0 with the next deadline %lld ms away", next - now_);
}
static void advance(long long ms) { long long was = sh_systime_msec(); now_ += ms; W.now_ms = now_; sh_systime_update(); CHECK((long long)sh_systime_msec() - was == ms, "the time advanced by %lld instead of %lld", (long long)sh_systime_msec() - was, ms); }


void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(80000000); CAPN = sh_max_con() * 2; sh_timer_init();
    now_ = 1700000000000LL + G.below(1000000); W.now_ms = now_; draw_uptime(); sh_systime_update();
    int n; switch (G.below(8)) { case 0: n = CAPN + G.range(0, 60); break; case 1: n = 40 + G.below(200); break; default: n = 1 + G.below(24); }
    ts.resize(n); for (int i = 0; i < n; i++) { ts[i].t = calloc(1, sh_timer_size()); ts[i].id = i; }
    int spread = G.one({10, 3, 100, 5000, 100000}); bool big = n > 300;
    if (big) for (int i = 0; i < n; i++) { int d = 1 + (i * 7919) % spread; do_set(i, d); }
    int ops = 1 + G.below(big ? 60 : 120);
    for (int k = 0; k < ops; k++) {
        int i = G.below(n);
        switch (G.weighted({6, 3, 3, 2, 1})) {
        case 0: { int d = 1 + G.below(spread); do_set(i, d); if (!big) hist += strf("set(%d,%d) ", i, d); break; }
        case 1: do_cancel(i); if (!big) hist += strf("cancel(%d) ", i); break;
        case 2: { long long d = G.below(3) ? G.below(spread + 2) : G.below(spread / 4 + 2); advance(d); expire(); if (!big) hist += strf("advance(%lld) ", d); break; }
        case 3: expire(); break;
        case 4: { int m = 1 + G.below(3); std::string a; for (int j = 0; j < m; j++) { int x = G.below(n), d = G.coin() ? 1 + (int)G.below(spread) : -1; ts[i].on_fire.push_back({x, d}); if (!big) a += strf("%s(%d,%d)", d < 0 ? "cancel" : "set", x, d); } hist += strf("onfire(%d:%s) ", i, a.c_str()); break; }
        }
    }
    for (int r = 0; r < 6 && armedn; r++) { advance(spread + 1); expire(); }
    for (auto &t : ts) t.on_fire.clear();
    advance(2LL * spread + 5); expire();
    CHECK(armedn == 0, "%d timers never fired", armedn);
    if (fired.size() >= 3 && cancels) nontrivial();
    label(big ? "at-capacity" : "small"); if (refused) label("refused"); label("fired", fired.size()); label("cancelled-or-reset", cancels);
    if (want_sample()) sample(strf("%d timers: %s", n, big ? "(capacity run)" : hist.substr(0, 600).c_str()));
}
