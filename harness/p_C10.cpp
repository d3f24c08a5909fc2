// One HTTP request per connection against the model, under every segmentation.
#include "web.h"

const char *prop_rule = "a case is one well-formed request (GET/POST, origin or absolute form, 0..41 header fields, head up to exactly 4096 bytes, body 0..16000) on a plain or TLS connection with drawn segmentation, scheduling and send-buffer sizes; non-trivial when the request was cut into at least two segments or carried a body";
long prop_cases_quick = 12000, prop_cases_thorough = 100000; int prop_batch = 200;

static Task<> client() {
    bool tls = G.chance(1, 3); bool keep = G.chance(1, 4); Req r = gen_req(keep); Expect e = expect_for(r); auto buf = std::make_shared<Bytes>();
    if (want_sample()) sample(strf("%s %s, segmentation %d, first 200 bytes %s", tls ? "TLS" : "plain", r.brief().c_str(), W.seg, quoted(r.bytes(), 200).c_str()));
    StreamP s = co_await web_connect(tls ? 443 : 80, tls); CHECK(s, "TLS handshake failed");
    Bytes b = r.bytes(); int parts = G.one({1, 1, 2, 3}); size_t o = 0;
    for (int i = 0; i < parts && o < b.size(); i++) { size_t n = i == parts - 1 ? b.size() - o : 1 + G.below(b.size() - o); co_await s->write(b.substr(o, n)); o += n; if (G.chance(1, 4)) co_await sleep_ms(G.below(900)); }
    if (parts > 1 || W.seg || !r.body.empty()) nontrivial();
    label(tls ? "tls" : "plain"); label(r.method); label(strf("expect%d", e.k)); if (r.head().size() > 4090) label("head-near-limit"); if (r.hdr.size() > 16) label("many-headers"); if (r.target != r.path) label("absolute");
    std::string w = co_await answer(s, buf, r); CHECK(w.empty(), "%s", w.c_str());
    CHECK(buf->empty(), "%zu bytes follow the response", buf->size());
    if (!keep) { Bytes x = co_await s->read(100); CHECK(x.empty(), "bytes after the response: %s", quoted(x).c_str()); }
    s->close();
}
void prop_case() { sim_profile(); spawn(client()); }
void prop_setup() { peers_init(); site_build(); Conf c; c.http = {80}; c.https = {443}; c.home = site_home(); sim_case_entry = prop_case; sim_boot(c.json()); }
