// Downloads of files of all sizes by slow and irregular readers.
#include "web.h"
#include <unistd.h>
#include <sys/stat.h>

const char *prop_rule = "a case is one GET (or up to three kept-alive ones, one by one, all at once or with the next request arriving while a response is under way) of a file of 0 bytes to 3 MB (sizes clustered around multiples of the transfer block) over plain HTTP or HTTPS with drawn send-buffer size, short writes, read sizes and read pauses, or a file that is appended to, replaced or cut while it is sent, or the beginning of a sparse file of 2 GB to 1 TB; non-trivial when the response did not fit into the send buffer at once or the file changed";
long prop_cases_quick = 8000, prop_cases_thorough = 80000; int prop_batch = 100;

static std::vector<std::string> big;
static Task<> client() {
    bool tls = G.coin(); size_t nbig = big.size(); Req r; r.path = r.target = big[G.below(G.chance(1, 12) ? nbig : nbig - 3)]; r.keep = G.coin(); if (r.keep) r.hdr = {{"Connection", "Keep-Alive"}};
    Expect e = expect_for(r); CHECK(e.k == Expect::FILE_, "check error: no such file %s", r.path.c_str());
    size_t chunk = G.one<size_t>({1 << 20, 65536, 5000, 333}); if (e.body.size() / chunk > 4000) chunk = 65536; int naps = G.one({0, 0, 6, 30}); int again = r.keep ? 1 + G.below(3) : 1, ahead = again > 1 ? G.below(4) : 0;
    W.cap_lo = std::max<size_t>(W.cap_lo, e.body.size() / 3000); W.cap_hi = std::max(W.cap_hi, W.cap_lo);
    if (want_sample()) sample(strf("%s GET %s (%zu bytes), send buffer %zu..%zu, reads of %zu, %d pauses, %d times (ahead %d)", tls ? "TLS" : "plain", r.path.c_str(), e.body.size(), W.cap_lo, W.cap_hi, chunk, naps, again, ahead));
    StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed"); label(tls ? "tls" : "plain");
    if (e.body.size() + 200 > W.cap_hi) { nontrivial(); label("stalled"); }
    auto buf = std::make_shared<Bytes>(); int sent = 0;
    // ahead 1: all requests at once, 2: the next one while the response comes, 3: a part of it
    if (ahead == 1) { label("all at once"); while (sent < again) { co_await s->write(r.bytes()); sent++; } }
    Bytes rest;
    for (int k = 0; k < again; k++) {
        if (k == sent) { co_await s->write(rest.empty() ? r.bytes() : rest); rest.clear(); sent++; }
        HttpResp p; Bytes got = *buf; size_t want = ~0ULL, at = G.chance(1, 4) ? 0 : G.below(e.body.size() + 1);
        for (;;) {
            size_t h = got.find("\r\n\r\n"); if (want == ~0ULL && h != got.npos) want = h + 4 + e.body.size();
            if (got.size() >= want) break;
            if (ahead > 1 && sent == k + 1 && sent < again && rest.empty() && got.size() >= at) {
                label("meanwhile"); Bytes q = r.bytes(); size_t n = ahead == 2 ? q.size() : 1 + G.below(q.size() - 1);
                co_await s->write(q.substr(0, n)); rest = q.substr(n); if (rest.empty()) sent++;
                if (G.coin()) co_await sleep_ms(G.below(500));
            }
            Bytes b = co_await s->read(std::min<size_t>(chunk, 1 + G.below(chunk)));
            if (b.empty()) break;
            got += b; if (naps && !s->pending() && G.chance(1, 3)) { naps--; co_await sleep_ms(G.below(2200)); }
        }
        *buf = got; std::string w = co_await answer(s, buf, r); CHECK(w.empty(), "%s", w.c_str()); CHECK(buf->empty() || sent > k + 1, "%zu bytes more than announced", buf->size());
    }
    if (!r.keep) { Bytes x = co_await s->read(100); CHECK(x.empty(), "%zu bytes more than announced", x.size()); }
    s->close();
}
// A file that somebody writes to, cuts or replaces while it is sent.  vers: all contents it ever had.
static Bytes mcontent(size_t n, int v) { return site_content(strf("moving%d", v), n); }
static void mwrite(const Bytes &b, bool append) { FILE *f = ::fopen((site_home() + "/moving.bin").c_str(), append ? "a" : "w"); CHECK(f, "check error: cannot write the file"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
static Task<> moving() {
    bool tls = G.coin(); int how = G.below(3); size_t n = G.one<size_t>({16344, 16343, 16344 * 2, 50000, 0, 1, 200000}) + G.below(3); std::vector<Bytes> vers{mcontent(n, 0)}; ::unlink((site_home() + "/moving.bin").c_str()); mwrite(vers[0], false);
    static const char *hows[] = {"appended to", "replaced", "cut"}; label(hows[how]); Req r; r.path = r.target = "/moving.bin"; r.keep = G.coin(); if (r.keep) r.hdr = {{"Connection", "Keep-Alive"}};
    if (want_sample()) sample(strf("%s GET of %zu bytes being %s", tls ? "TLS" : "plain", n, hows[how]));
    W.cap_lo = std::max<size_t>(W.cap_lo, n / 2000); W.cap_hi = std::max(W.cap_hi, W.cap_lo);
    StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed");
    auto change = [&] {
        if (how == 0) { Bytes add = site_content(strf("add%zu", vers.size()), 1 + G.below(G.coin() ? 40000 : 30)); mwrite(add, true); vers.push_back(vers.back() + add); }
        else if (how == 1) { Bytes b = mcontent(G.below(2) ? n : G.below(60000), vers.size()); sim_set_file("www/new.bin", b); ::rename((site_home() + "/new.bin").c_str(), (site_home() + "/moving.bin").c_str()); vers.push_back(b); }
        else { size_t m = G.below(vers.back().size() + 1); CHECK(!::truncate((site_home() + "/moving.bin").c_str(), m), "check error: truncate"); vers.push_back(vers.back().substr(0, m)); }
        nontrivial();
    };
    size_t first = 0; // versions before this one were gone when the request was sent
    for (int k = r.keep ? 1 + G.below(3) : 1; k > 0; k--) {
        co_await s->write(r.bytes()); Bytes got; size_t want = ~0ULL, len = 0, h = 0; int changes = 1 + G.below(4); bool ended = false;
        for (;;) {
            if (want == ~0ULL && (h = got.find("\r\n\r\n")) != got.npos) { size_t c = got.find("Content-Length: "); CHECK(c < h && !got.compare(0, 13, "HTTP/1.1 200 "), "answered with %s", quoted(got, 100).c_str()); len = strtoull(got.c_str() + c + 16, 0, 10); want = h + 4 + len; }
            if (got.size() >= want) break;
            if (changes && G.chance(1, 3)) { changes--; change(); }
            Bytes b = co_await s->read(1 + G.below(G.one({20000, 3000, 100000}))); if (b.empty()) { ended = true; break; }
            got += b; if (G.chance(1, 5) && !s->pending()) co_await sleep_ms(G.below(1500));
        }
        CHECK(want != ~0ULL, "no answer for a file being %s", hows[how]); CHECK(got.size() <= want, "%zu bytes more than announced for a file being %s", got.size() - want, hows[how]);
        if (ended) { CHECK(how == 2, "the answer for a file being %s ends after %zu of %zu bytes", hows[how], got.size() - h - 4, len); }
        Bytes body = got.substr(h + 4); bool ok = false;
        for (size_t i = first; i < vers.size(); i++) if (how == 2 ? vers[0].compare(0, body.size(), body) == 0 : vers[i] == body) ok = true; // when cut: the part that was there
        CHECK(ok, "an answer of %zu bytes is no content the file had", len); first = how == 2 ? 0 : vers.size() - 1;
        if (ended) { s->close(); co_return; }
    }
    if (!r.keep) { Bytes x = co_await s->read(100); CHECK(x.empty(), "%zu bytes more than announced for a file being %s", x.size(), hows[how]); }
    s->close();
}
// Files beyond 2 GB (sparse): the announced length, and the beginning of the content.
static Task<> huge() {
    W.preempt = 0; static const unsigned long long sizes[] = {(1ULL << 31) - 1, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1000, 5000000000ULL, 1ULL << 40}; unsigned long long n = sizes[G.below(7)]; bool tls = G.coin(); label("huge");
    ::unlink((site_home() + "/moving.bin").c_str()); mwrite("beginning", false); if (::truncate((site_home() + "/moving.bin").c_str(), n)) co_return; // the file system does not hold such files
    Req r; r.path = r.target = "/moving.bin"; StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed"); co_await s->write(r.bytes());
    Bytes got; size_t h, take = G.below(100000); while ((h = got.find("\r\n\r\n")) == got.npos || got.size() < h + 4 + take) { Bytes b = co_await s->read(1 + G.below(60000)); CHECK(!b.empty(), "the answer for a file of %llu bytes ends after %zu bytes", n, got.size()); got += b; }
    size_t c = got.find("Content-Length: "); CHECK(c < h && strtoll(got.c_str() + c + 16, 0, 10) == (long long)n, "a file of %llu bytes is announced with %s", n, quoted(got.substr(0, h), 200).c_str());
    Bytes want = Bytes("beginning") + Bytes(got.size(), 0); CHECK(!want.compare(0, got.size() - h - 4, got, h + 4, got.npos), "wrong content"); s->reset(); nontrivial(); ::unlink((site_home() + "/moving.bin").c_str());
}
void prop_case() { sim_profile(); switch (G.weighted({12, 3, 1})) { case 0: spawn(client()); break; case 1: spawn(moving()); break; default: spawn(huge()); } }
void prop_setup() {
    peers_init(); site_build(); auto add = [](size_t n) { std::string p = strf("/b%zu.bin", n); site_add(p, site_content(p, n)); big.push_back(p); };
    for (size_t n : {0, 1, 2, 100}) add(n); for (int k = 1; k <= 4; k++) for (int d = -2; d <= 2; d++) add(16344 * k + d); for (int d = -1; d <= 1; d++) { add(16384 + d); add(32768 + d); }
    add(100000); add(262145); add(400000); add(1 << 20); add((3 << 20) + 17); add(2000000);
    Conf c; c.http = {80}; c.https = {443}; c.home = site_home(); sim_case_entry = prop_case; sim_boot(c.json());
}
