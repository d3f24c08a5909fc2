// Log records: one bounded record per enabled call, on standard output and in the log of the channel.
#include "sim.h"
#include "shim.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>

const char *prop_rule = "a case is a configured level and up to 12 log calls (channel, level, function name, line, message of 0..4000 bytes, biased to lengths around the record limit); non-trivial when a call was enabled and its record had to be cut or came within 16 bytes of the limit";
long prop_cases_quick = 12000, prop_cases_thorough = 200000; int prop_batch = 400;

static size_t done_[3]; static int rfd[3]; static Bytes kept[3];
static Bytes appended(int i) { Bytes r; char b[9000]; ssize_t n; while ((n = ::pread(rfd[i], b, sizeof b, done_[i])) > 0) { r.append(b, n); done_[i] += n; } kept[i] += r; return r; }
static const char *LAB[] = {"[error]", "[info]", "[debug]"};
static const char *FILES[] = {"stdout", "the main log", "the access log"};

void prop_setup() { setenv("TZ", G.one<const char *>({"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "XST-5:30", "YST8"}), 1); tzset(); sim_clock_active(true); W.now_ms = 1700000000123ULL; sim_set_file("logs/.keep", ""); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    sim_base(); steps_reset(100000000);
    std::string out = std::string(scratch_dir()) + "/out"; int o = ::open(out.c_str(), O_CREAT | O_RDWR | O_APPEND | O_TRUNC, 0600); ::dup2(o, 1);
    std::string path[] = {out, sim_base() + "logs/log_main", sim_base() + "logs/log_access"};
    for (int i = 1; i < 3; i++) { Bytes old = G.coin() ? Bytes() : "[error] of an earlier run\n" + Bytes(G.below(3000), 'o'); sim_set_file(i == 1 ? "logs/log_main" : "logs/log_access", old); done_[i] = old.size(); kept[i] = old; if (!old.empty()) label("older records"); }
    CHECK(sh_log_init() == 0, "the log cannot be opened");
    rfd[0] = ::open(out.c_str(), O_RDONLY); rfd[1] = ::open((sim_base() + "logs/log_main").c_str(), O_RDONLY); rfd[2] = ::open((sim_base() + "logs/log_access").c_str(), O_RDONLY);
    if (rfd[1] < 0 || rfd[2] < 0) fail("a log file is missing");
    int cfg = G.one({2, 1, 0, 255}); sh_cfg_loglevel(cfg); int n = 1 + G.below(12); int cut = 0; std::string desc;
    for (int i = 0; i < n; i++) {
        if (i && G.chance(1, 8)) { sh_log_end(); CHECK(sh_log_init() == 0, "the log cannot be opened again"); label("opened again"); }
        if (G.chance(1, 4)) { int k = 1 + G.below(2); Bytes l = strf("[info] of another process %d\n", (int)G.below(1000)); int f = ::open(path[k].c_str(), O_WRONLY | O_APPEND); if (::write(f, l.data(), l.size()) != (ssize_t)l.size()) abort(); ::close(f); appended(k); label("another writer"); }
        if (G.chance(1, 3)) W.now_ms += G.below(100000000); sh_systime_update();
        int level = G.below(3), access = G.below(2), line = 1 + G.one({0, 9, 99, 12345, 99999}); bool withd = G.coin(); int d = (int)G.below(0);
        std::string func = Bytes(1 + G.one<int>({3, 0, 20, 62}), 'f'); if (G.chance(1, 40)) func = Bytes(400 + G.below(300), 'g');
        time_t sec = W.now_ms / 1000; struct tm t; localtime_r(&sec, &t);
        std::string head = strf("%s %04d/%02d/%02d %02d:%02d:%02d.%03d <%s:%d> ", LAB[level], t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (int)(W.now_ms % 1000), func.c_str(), line);
        std::string pre = withd ? strf("[%d] ", d) : "", post = withd ? "\n" : ""; long room = 512 - (long)(head.size() + pre.size() + post.size());
        size_t len; switch (G.below(5)) { case 0: len = G.below(40); break; case 1: case 2: len = std::max(0L, room + G.range(-8, 8)); break; case 3: len = std::max(0L, room) + G.below(600); break; default: len = G.below(4000); }
        Bytes text = G.chance(1, 3) ? G.blob(len) : Bytes(len, 'm'); for (auto &c : text) if (!c) c = '%'; if (len > 3 && G.coin()) text.replace(0, 2, "%n");
        char *tp = (char *)malloc(len + 1); memcpy(tp, text.c_str(), len + 1); char *fp = strdup(func.c_str());
        if (withd) sh_log_d(access, level, fp, line, d, tp); else sh_log(access, level, fp, line, tp);
        free(tp); free(fp);
        Bytes full = head + pre + text + post; bool on = level <= cfg;
        Bytes got[3]; for (int k = 0; k < 3; k++) got[k] = appended(k);
        for (int k = 0; k < 3; k++) {
            bool want = on && (k == 0 || k == 1 + access);
            if (!want) { CHECK(got[k].empty(), "%s received %zu bytes from a %s call on the %s channel with level %d configured", FILES[k], got[k].size(), LAB[level], access ? "access" : "main", cfg); continue; }
            CHECK(!got[k].empty(), "%s received nothing from a %s call on the %s channel with level %d configured", FILES[k], LAB[level], access ? "access" : "main", cfg);
            CHECK(got[k].size() <= 512, "%s received a record of %zu bytes", FILES[k], got[k].size());
            size_t lim = std::min<size_t>(full.size(), 505); Bytes g = got[k]; bool nl = g.size() < full.size() && g.back() == '\n' && full.compare(0, g.size(), g); if (nl) g.pop_back();
            CHECK(g.size() + nl >= lim, "%s received %zu bytes of a record of %zu", FILES[k], got[k].size(), full.size());
            CHECK(full.compare(0, g.size(), g) == 0, "%s received %s where %s was logged", FILES[k], quoted(g, 160).c_str(), quoted(full, 160).c_str());
        }
        if (on) CHECK(got[0] == got[1 + access], "standard output and the log differ: %s and %s", quoted(got[0]).c_str(), quoted(got[1 + access]).c_str());
        if (on && full.size() > 496) { cut++; label(full.size() > 512 ? "cut" : "near-limit"); } label(on ? "enabled" : "disabled"); if (func.size() >= 400) label("long-location");
        desc += strf(" %s/%s/%zu", LAB[level], access ? "access" : "main", full.size());
    }
    sh_log_end();
    for (int k = 1; k < 3; k++) { done_[k] = 0; Bytes want = kept[k], is = appended(k); CHECK(is == want, "%s does not hold every record any more: %zu bytes instead of %zu", FILES[k], is.size(), want.size()); }
    if (cut) nontrivial();
    if (want_sample()) sample(strf("level %d, calls:%s", cfg, desc.c_str()));
}
