// The wall clock is set while connections live: the scenarios of C05 and C08 with clock steps, and the dates shown.
#include "tun.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
namespace stall {
#include "p_C08.cpp"
}
namespace cache {
#include "p_C05.cpp"
}
const char *prop_rule = "a case is a session mix with gaps and stalls as in C08, a lookup history as in C05, or 1..8 requests for the date on one or several connections, during which the wall clock is set 1..6 times (by milliseconds to decades, forwards and backwards, aimed at leap days and year ends) at drawn times; non-trivial when the clock was set at least once while a connection was open, or the date was read after it was set";
long prop_cases_quick = 12000, prop_cases_thorough = 200000; int prop_batch = 60;
static int kind;
static const int64_t MARKS[] = {951782400, 951868800, 1078012800, 1709164799, 1709251200, 4107542400, 4107456000, 1735689599, 1735689600, 946684800, 2147483647, 2147483648, 4294967295, 4294967296, 86399, 86400, 0};
static bool step() { // sets the clock; never before 1970 or behind 2199
    int64_t now = W.now_ms + W.wall_off, d; switch (G.below(6)) { case 0: d = G.range(-2000, 2000); break; case 1: d = G.range(-20000, 20000); break; case 2: d = G.range(-7200000, 7200000); break; case 3: d = G.one<int64_t>({86400000, -86400000, 31536000000LL, -31536000000LL, 3600000, -3600000}); break; case 4: d = G.range(-15000, 15000) * 3600000LL * 6; break; default: d = MARKS[G.below(17)] * 1000 + G.range(-3000, 3000) - now; }
    if (now + d < 0 || now + d > 7226582400000LL) d = G.range(-100000, 100000); bool open = false; for (auto &s : sim_socks()) open |= s->open && s->kind == Sock::STREAM; clock_step(d); label(d < 0 ? "set back" : "set forward"); return open;
}
static Task<> stepper(bool hours) { int n = 1 + G.below(6); for (int i = 0; i < n; i++) { co_await sleep_ms(hours && G.chance(1, 3) ? G.below(3600000) : G.coin() ? G.below(1000) : G.below(15000)); if (step()) nontrivial(); } }

// Date and /echo: an instant the clock showed between the last byte of the request and the answer
static std::vector<std::pair<uint64_t, int64_t>> since; // wall clock offsets and from when on
static bool shown(const std::string &d, uint64_t from) { for (size_t i = 0; i < since.size(); i++) { uint64_t a = std::max(from, since[i].first), b = i + 1 < since.size() ? since[i + 1].first : W.now_ms; if (a > b) continue; for (uint64_t t = (a + since[i].second) / 1000; t <= (b + since[i].second) / 1000; t++) if (d == http_date(t * 1000)) return true; } return false; }
static Task<> ask(int id) {
    bool tls = G.coin(); StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "no connection"); auto buf = std::make_shared<Bytes>(); int n = 1 + G.below(8);
    for (int i = 0; i < n; i++) {
        if (G.coin()) co_await sleep_ms(G.below(4000)); if (G.chance(1, 3)) { since.push_back({W.now_ms, 0}); step(); since.back().second = W.wall_off; }
        Req r; r.keep = i < n - 1; r.path = r.target = G.one({"/echo", "/a.txt", "/none"}); if (r.keep) r.hdr.push_back({"Connection", "Keep-Alive"}); uint64_t from = W.now_ms; CHECK(co_await s->write(r.bytes()), "disconnected before request %d", i + 1);
        HttpResp h = co_await read_response(s, buf); CHECK(h.bad.empty(), "request %d: %s", i + 1, h.bad.c_str()); const std::string *d = h.get("Date"); CHECK(d && shown(*d, from), "request %d of %d: Date is %s, the clock shows %s", i + 1, id, d ? quoted(*d).c_str() : "missing", http_date(W.now_ms + W.wall_off).c_str());
        if (r.path == "/echo") CHECK(shown(h.body, from), "request %d: the body is %s, the clock shows %s", i + 1, quoted(h.body).c_str(), http_date(W.now_ms + W.wall_off).c_str()); if (W.wall_off) nontrivial(); label("date"); if (want_sample()) sample("date " + *d);
    }
    s->close();
}
static Task<> dates() { int n = 1 + G.below(3); for (int i = 0; i < n; i++) { if (G.coin()) spawn(ask(i)); else co_await ask(i); } }
static void one_case() {
    if (G.coin()) step();
    if (kind == 0) { stall::prop_case(); spawn(stepper(false), true); } else if (kind == 1) { cache::prop_case(); spawn(stepper(true), true); }
    else { sim_profile(); W.creep = 0; since = {{0, W.wall_off}}; spawn(dates()); }
}
void prop_case() { one_case(); }
void prop_setup() {
    const char *tz = G.one<const char *>({"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XST-5:30", "YST8", "ZST-14", "WST12"}); setenv("TZ", tz, 1); tzset(); if (strcmp(tz, "UTC0")) label("other time zone");
    kind = G.weighted({3, 2, 1}); int mode = kind == 1 ? 2 + G.below(2) : 1 + G.below(3); stall::mode = cache::mode = mode; peers_init(); site_build(); site_add("/slow.bin", site_content("slow", 70000)); sim_case_entry = prop_case; sim_boot(tun_conf(mode).json());
}
