// Sequences of requests on one keep-alive connection against the model.
#include "web.h"

const char *prop_rule = "a case is one connection (plain or TLS) carrying 1..12 requests (sometimes hundreds of short ones) with drawn pipelining depth, segmentation and scheduling, the last of them with or without keep-alive and possibly followed by bytes that must not be answered; non-trivial when at least two requests were answered and one of them was sent before the previous response was read";
long prop_cases_quick = 4000, prop_cases_thorough = 60000; int prop_batch = 100;

struct Run { std::vector<Req> reqs; size_t sent = 0, answered = 0; int depth; Bytes trailer; bool failed = false, burst = false; };
typedef std::shared_ptr<Run> RunP;
static Task<> writer(StreamP s, RunP u) {
    Bytes pend;
    for (size_t i = 0; i < u->reqs.size(); i++) {
        RunP v = u; if (i - u->answered >= (size_t)u->depth) { if (!pend.empty()) { if (!co_await s->write(pend)) co_return; pend.clear(); } co_await until([v, i] { return i - v->answered < (size_t)v->depth || v->failed; }); if (u->failed) co_return; }
        pend += u->reqs[i].bytes(); u->sent = i + 1;
        if (!u->burst && G.chance(1, 3)) { bool cut = pend.size() > 2 && G.chance(1, 3); size_t n = cut ? 1 + G.below(pend.size() - 1) : pend.size(); if (!co_await s->write(pend.substr(0, n))) co_return; pend.erase(0, n); if (G.chance(1, 6)) co_await sleep_ms(G.below(1500)); }
    }
    pend += u->trailer; if (!pend.empty()) co_await s->write(pend);
}
static Task<> client() {
    bool tls = G.chance(1, 3), deep = G.chance(1, 60); auto u = std::make_shared<Run>(); int n = deep ? 100 + G.below(4900) : G.chance(1, 8) ? 1 : 2 + G.below(11);
    bool last_keep = G.coin();
    for (int i = 0; i < n; i++) {
        bool keep = i < n - 1 || last_keep; Req r;
        if (deep) { r.path = r.target = G.one({"/echo", "/a.txt", "/empty.bin", "/none"}); r.keep = keep; if (keep) r.hdr = {{"Connection", " Keep-Alive"}}; }
        else if (G.chance(1, 3)) { r.path = r.target = G.one({"/echo", "/a.txt", "/empty.bin", "/none", "/f4.jpg"}); r.keep = keep; if (keep) r.hdr = {{"Connection", " Keep-Alive"}}; }
        else for (int t = 0;; t++) { r = gen_req(keep, 16000); if (expect_for(r).k != Expect::ERROR_OR_CLOSE || t > 4) break; }
        if (expect_for(r).k == Expect::ERROR_OR_CLOSE) { r = Req(); r.keep = keep; r.path = r.target = "/a.txt"; if (keep) r.hdr = {{"Connection", " Keep-Alive"}}; }
        u->reqs.push_back(r);
    }
    u->burst = deep && G.coin(); u->depth = deep ? n : G.one({1, 2, 2, 3, 12}); if (!last_keep && G.chance(1, 3)) { Req r; r.path = r.target = "/a.txt"; u->trailer = r.bytes(); label("trailer"); }
    if (want_sample()) { std::string t; for (size_t i = 0; i < u->reqs.size() && i < 6; i++) t += "; " + u->reqs[i].brief(); sample(strf("%s, %d requests, depth %d, segmentation %d%s", tls ? "TLS" : "plain", n, u->depth, W.seg, t.c_str())); }
    StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed");
    label(tls ? "tls" : "plain"); if (deep) label("deep"); label(u->depth > 1 ? "pipelined" : "sequential");
    spawn(writer(s, u)); auto buf = std::make_shared<Bytes>(); bool ahead = false; int naps = 2;
    for (int i = 0; i < n; i++) {
        if (naps && G.chance(1, 10)) { naps--; co_await sleep_ms(G.below(1500)); }
        std::string w = co_await answer(s, buf, u->reqs[i]); CHECK(w.empty(), "request %d of %d: %s", i + 1, n, w.c_str()); if (u->sent > (size_t)i + 1) ahead = true; u->answered = i + 1;
    }
    if (n > 1 && ahead) nontrivial();
    if (!last_keep) { Bytes x = *buf; if (x.empty()) x = co_await s->read(100); CHECK(x.empty(), "bytes after the last response: %s", quoted(x).c_str()); CHECK(s->eof, "the connection was not closed after a request without keep-alive"); }
    else { CHECK(buf->empty(), "%zu bytes follow the last response", buf->size()); Bytes x = co_await s->read(100, 1000); CHECK(x.empty() && s->timedout, "after the last response the server %s", x.empty() ? "closed a kept-alive connection at once" : quoted(x).c_str()); }
    u->failed = true; s->close();
}
void prop_case() { sim_profile(); spawn(client()); }
void prop_setup() { peers_init(); site_build(); Conf c; c.http = {80}; c.https = {443}; c.home = site_home(); sim_case_entry = prop_case; sim_boot(c.json()); }
