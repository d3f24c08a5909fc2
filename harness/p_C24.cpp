// JSON: generated documents against the model that produced them, and mutated documents for memory safety.
#include "sim.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cfloat>
extern "C" {
// the public cJSON interface, as far as used here
struct cJSON { cJSON *next, *prev, *child; int type; char *valuestring; int valueint; double valuedouble; char *string; };
cJSON *cJSON_Parse(const char *); cJSON *cJSON_ParseWithLength(const char *, size_t); cJSON *cJSON_ParseWithOpts(const char *, const char **, int); cJSON *cJSON_ParseWithLengthOpts(const char *, size_t, const char **, int); const char *cJSON_GetErrorPtr(void); char *cJSON_Print(const cJSON *); char *cJSON_PrintUnformatted(const cJSON *); char *cJSON_PrintBuffered(const cJSON *, int, int); int cJSON_PrintPreallocated(cJSON *, char *, int, int);
void cJSON_Delete(cJSON *); cJSON *cJSON_Duplicate(const cJSON *, int); int cJSON_Compare(const cJSON *, const cJSON *, int); void cJSON_Minify(char *); void cJSON_free(void *);
int cJSON_GetArraySize(const cJSON *); cJSON *cJSON_GetArrayItem(const cJSON *, int); cJSON *cJSON_GetObjectItemCaseSensitive(const cJSON *, const char *); cJSON *cJSON_GetObjectItem(const cJSON *, const char *); char *cJSON_GetStringValue(const cJSON *); double cJSON_GetNumberValue(const cJSON *);
int cJSON_IsFalse(const cJSON *), cJSON_IsTrue(const cJSON *), cJSON_IsNull(const cJSON *), cJSON_IsNumber(const cJSON *), cJSON_IsString(const cJSON *), cJSON_IsArray(const cJSON *), cJSON_IsObject(const cJSON *);
}
const char *prop_rule = "a case is a generated document (depth up to 12, or a deep/long one) written with random whitespace, number and escape styles, parsed, compared with its model, printed in three ways, re-parsed, minified, duplicated and compared; or a mutated/truncated/random byte string in an exact-size buffer; non-trivial when the document has at least 5 values or the mutant was derived from one";
long prop_cases_quick = 16000, prop_cases_thorough = 200000; int prop_batch = 200; bool prop_guided = true;

struct V { enum { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } t = NUL; double d = 0; Bytes s; std::vector<V> a; std::vector<Bytes> k; };
static bool deepobj; // cJSON_Compare takes 2^depth steps on nested objects
static int count; static bool exact; // the printer keeps numbers to a relative 2^-52, the parser must be exact
static void utf8(Bytes &o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } }
static uint32_t gchar() { switch (G.below(8)) { case 0: return 1 + G.below(31); case 1: return G.one<uint32_t>({'"', '\\', '/', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000}); case 2: return 0x80 + G.below(0x700); case 3: { uint32_t c = 0x800 + G.below(0xf7ff); return c >= 0xd800 && c < 0xe000 ? 0x4e00 : c; } case 4: return 0x10000 + G.below(0x100000); default: return ' ' + G.below(95); } }
// writes a string literal for the characters, with random escape style, and the decoded bytes
static void gstr(Bytes &lit, Bytes &val) {
    lit += '"'; size_t n = G.chance(1, 12) ? G.below(600) : G.below(10);
    for (size_t i = 0; i < n; i++) {
        uint32_t c = gchar(); utf8(val, c); int st = G.below(4);
        const char *sh = strchr("\"\"\\\\//\bb\ff\nn\rr\tt", 0); (void)sh; char e = 0; switch (c) { case '"': e = '"'; break; case '\\': e = '\\'; break; case '/': e = '/'; break; case 8: e = 'b'; break; case 12: e = 'f'; break; case 10: e = 'n'; break; case 13: e = 'r'; break; case 9: e = 't'; break; }
        bool must = c < 32 || c == '"' || c == '\\';
        if (st == 0 || (must && !e)) { if (c >= 0x10000) { uint32_t x = c - 0x10000; lit += strf(G.coin() ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + (x >> 10), 0xdc00 + (x & 0x3ff)); } else lit += strf(G.coin() ? "\\u%04x" : "\\u%04X", c); }
        else if (e && (must || st == 1)) { lit += '\\'; lit += e; } else utf8(lit, c);
    }
    lit += '"';
}
static void ws(Bytes &o) { if (G.chance(1, 6)) for (int i = 0, n = 1 + G.below(3); i < n; i++) o += " \t\n\r"[G.below(4)]; }
static V gval(Bytes &o, int depth) {
    V v; count++; ws(o); int w = depth <= 0 || count > 300 ? G.below(5) : G.below(8);
    switch (w) {
    case 0: v.t = V::NUL; o += "null"; break; case 1: v.t = V::TRUE_; o += "true"; break; case 2: v.t = V::FALSE_; o += "false"; break;
    case 3: { v.t = V::NUM; char b[64];
        switch (G.below(6)) { case 0: snprintf(b, 64, "%lld", (long long)G.range(-1000, 1000)); break; case 1: snprintf(b, 64, "%lld", (long long)G.any64()); break; case 2: snprintf(b, 64, "%.17g", (double)(int64_t)G.any64() / (1 + G.below(1000000))); break; case 3: snprintf(b, 64, "%d.%de%+d", (int)G.range(-9, 9), (int)G.below(1000000), (int)G.range(-290, 290)); break; case 4: { union { uint64_t u; double d; } x; x.u = G.below(0); if (!std::isfinite(x.d)) x.d = 1.5; snprintf(b, 64, "%.17g", x.d); break; } default: snprintf(b, 64, "%d%s", (int)G.range(-100, 100), G.one<const char *>({"", ".5", ".0", "e0", "E2", "e+3", "e-3"})); }
        v.d = strtod(b, nullptr); if (!std::isfinite(v.d)) { strcpy(b, "0"); v.d = 0; } o += b; break; }
    case 4: v.t = V::STR; gstr(o, v.s); break;
    case 5: case 6: { v.t = V::ARR; o += '['; int n = G.below(6); for (int i = 0; i < n; i++) { if (i) o += ','; v.a.push_back(gval(o, depth - 1)); } ws(o); o += ']'; break; }
    default: { v.t = V::OBJ; o += '{'; int n = G.below(6); for (int i = 0; i < n; i++) { Bytes lit, key; gstr(lit, key); for (auto &k : v.k) if (!strcasecmp(k.c_str(), key.c_str())) { key = strf("k%d", i); lit = "\"" + key + "\""; } bool dup = false; for (auto &k : v.k) dup |= !strcasecmp(k.c_str(), key.c_str()); if (dup) break; if (i) o += ','; ws(o); o += lit; ws(o); o += ':'; v.k.push_back(key); v.a.push_back(gval(o, depth - 1)); } ws(o); o += '}'; }
    }
    ws(o); return v;
}
static std::string same(const V &v, const cJSON *j, const std::string &path) {
    if (!j) return path + ": missing";
    switch (v.t) {
    case V::NUL: return cJSON_IsNull(j) ? "" : path + ": not null"; case V::TRUE_: return cJSON_IsTrue(j) ? "" : path + ": not true"; case V::FALSE_: return cJSON_IsFalse(j) ? "" : path + ": not false";
    case V::NUM: { if (!cJSON_IsNumber(j)) return path + ": not a number"; double g = cJSON_GetNumberValue(j); if (!(g == v.d || (!exact && std::fabs(g - v.d) <= std::fmax(std::fabs(g), std::fabs(v.d)) * DBL_EPSILON))) return path + strf(": number %.17g instead of %.17g", g, v.d); int want = v.d >= INT32_MAX ? INT32_MAX : v.d <= (double)INT32_MIN ? INT32_MIN : (int)v.d; if (exact && j->valueint != want) return path + strf(": integer value %d of %.17g", j->valueint, v.d); return ""; }
    case V::STR: { if (!cJSON_IsString(j)) return path + ": not a string"; const char *s = cJSON_GetStringValue(j); if (!s || Bytes(s) != v.s) return path + ": string " + quoted(s ? s : "(null)", 60) + " instead of " + quoted(v.s, 60); return ""; }
    case V::ARR: case V::OBJ: {
        if (v.t == V::ARR ? !cJSON_IsArray(j) : !cJSON_IsObject(j)) return path + ": wrong container type"; if (cJSON_GetArraySize(j) != (int)v.a.size()) return path + strf(": %d members instead of %zu", cJSON_GetArraySize(j), v.a.size());
        const cJSON *c = j->child; for (size_t i = 0; i < v.a.size(); i++, c = c ? c->next : c) { if (!c) return path + ": list ends early"; if (v.t == V::OBJ && (!c->string || v.k[i] != c->string)) return path + strf(": member %zu is named %s", i, quoted(c->string ? c->string : "(null)", 60).c_str()); auto r = same(v.a[i], c, path + strf("/%zu", i)); if (!r.empty()) return r; if (cJSON_GetArrayItem(j, i) != c) return path + strf(": item %zu by index differs", i); if (v.t == V::OBJ && (cJSON_GetObjectItemCaseSensitive(j, v.k[i].c_str()) != c || cJSON_GetObjectItem(j, v.k[i].c_str()) != c)) return path + ": member " + quoted(v.k[i], 40) + " is not found by name"; }
        return c ? path + ": extra members" : "";
    } }
    return "";
}
static cJSON *parse_exact(const Bytes &d, bool len) { char *p = (char *)malloc(d.size() + (len ? 0 : 1)); memcpy(p, d.data(), d.size()); if (!len) p[d.size()] = 0; cJSON *j = len ? cJSON_ParseWithLength(p, d.size()) : cJSON_Parse(p); if (p) { memset(p, 'X', d.size()); free(p); } return j; }
// Reader that is as generous as can be excused (any byte up to the space is white space, numbers as strtod takes them,
// anything behind the value); what it does not take has broken brackets, separators, quotes, escapes or literals.
struct Lenient {
    const Bytes &d; size_t p = 0; explicit Lenient(const Bytes &x) : d(x) {}
    void ws() { while (p < d.size() && (unsigned char)d[p] <= 32) p++; }
    bool at(char c) { return p < d.size() && d[p] == c; }
    bool lit(const char *w) { size_t n = strlen(w); if (d.compare(p, n, w)) return false; p += n; return true; }
    bool str() {
        if (!at('"')) return false; size_t e = p + 1; while (e < d.size() && d[e] != '"') e += d[e] == '\\' ? 2 : 1; if (e >= d.size()) return false;
        for (size_t q = p + 1; q < e;) { if (d[q] != '\\') { q++; continue; } if (!strchr("bfnrt\"\\/u", d[q + 1]) || !d[q + 1]) return false; if (d[q + 1] == 'u') { if (e - q < 6) return false; q += 6; } else q += 2; }
        p = e + 1; return true;
    }
    bool num() { char b[64]; size_t n = 0; while (n < 63 && p + n < d.size() && d[p + n] && strchr("0123456789+-eE.", d[p + n])) { b[n] = d[p + n]; n++; } b[n] = 0; char *e; strtod(b, &e); if (e == b) return false; p += e - b; return true; }
    bool value() {
        if (p >= d.size()) return false; char c = d[p];
        if (c == '"') return str(); if (c == '-' || (c >= '0' && c <= '9')) return num();
        if (c == '[' || c == '{') {
            char z = c == '[' ? ']' : '}'; p++; ws(); if (at(z)) { p++; return true; }
            for (;;) { ws(); if (c == '{') { if (!str()) return false; ws(); if (!at(':')) return false; p++; ws(); } if (!value()) return false; ws(); if (at(',')) { p++; continue; } if (!at(z)) return false; p++; return true; }
        }
        return lit("null") || lit("true") || lit("false");
    }
    bool doc() { if (!d.compare(0, 3, "\xef\xbb\xbf")) p = 3; ws(); return value(); }
};
// the variants that say where the value ends, or insist on nothing behind it
static void with_opts(const Bytes &d, bool valid, const V *v) {
    bool len = G.coin(), strict = G.coin(), want_end = G.coin(); Bytes full = len ? d : d + '\0'; if (len && G.coin()) full += '\0'; if (!len && d.find('\0') != Bytes::npos) return;
    char *p = (char *)malloc(full.size() + !full.size()); memcpy(p, full.data(), full.size()); const char *end = nullptr;
    cJSON *j = len ? cJSON_ParseWithLengthOpts(p, full.size(), want_end ? &end : nullptr, strict) : cJSON_ParseWithOpts(p, want_end ? &end : nullptr, strict);
    Lenient g(full); bool ok = g.doc(); size_t stop = g.p; bool clean = false; if (ok) { g.ws(); size_t q = stop; while (q < full.size() && full[q] && (unsigned char)full[q] <= 32) q++; clean = q < full.size() && !full[q]; }
    if (!ok) CHECK(!j, "broken document accepted: %s", quoted(d, 300).c_str());
    // white space in front of the terminator may itself contain terminators, so strictness is judged for printable documents only
    if (ok && strict && d.find('\0') == Bytes::npos) { if (!clean) CHECK(!j, "accepted although something follows the value: %s (length %zu)", quoted(full, 300).c_str(), full.size()); }
    if (valid && (!strict || clean)) CHECK(j, "valid document rejected: %s", quoted(d, 300).c_str());
    if (want_end) { CHECK(end >= p && (full.empty() || end <= p + full.size()), "end of the value is outside the document"); if (j) { if (!strict && d.find('\0') == Bytes::npos) CHECK((size_t)(end - p) == stop, "value ends at %zu, reported at %zu: %s", stop, (size_t)(end - p), quoted(d, 300).c_str()); else if (strict) CHECK(end < p + full.size() && *end == 0, "a strictly read document does not end at the terminator"); } else if (!full.empty()) CHECK(end < p + full.size() && end == cJSON_GetErrorPtr(), "place of the error"); }
    if (j && v) { exact = true; std::string r = same(*v, j, "$"); exact = false; CHECK(r.empty(), "parsed value differs at %s of %s", r.c_str(), quoted(d, 300).c_str()); }
    if (j) cJSON_Delete(j); free(p);
}
void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(60000000); long base = W.live_malloc; Bytes doc; V v; int kind = G.below(10);
    if (kind == 9 && G.coin()) { int n = G.coin() ? 900 : 1 + G.below(400); bool obj = G.coin(); for (int i = 0; i < n; i++) { doc += obj ? "{\"k\":" : "["; } doc += "1"; for (int i = 0; i < n; i++) doc += obj ? "}" : "]"; V x; x.t = V::NUM; x.d = 1; for (int i = 0; i < n; i++) { V y; y.t = obj ? V::OBJ : V::ARR; if (obj) y.k.push_back("k"); y.a.push_back(std::move(x)); x = std::move(y); } v = std::move(x); count = n; deepobj = obj; label("deep"); }
    else v = gval(doc, G.below(13));
    if (kind < 6) {
        bool len = G.coin(); cJSON *j = parse_exact(doc, len); CHECK(j, "valid document rejected: %s", quoted(doc, 300).c_str()); exact = true; std::string r = same(v, j, "$"); exact = false; CHECK(r.empty(), "parsed value differs at %s of %s", r.c_str(), quoted(doc, 300).c_str());
        for (int m = 0; m < 5; m++) {
            char *t; if (m == 0) t = cJSON_Print(j); else if (m == 1) t = cJSON_PrintUnformatted(j); else if (m == 2) t = cJSON_PrintBuffered(j, 1 + G.below(40), G.coin());
            else if (m == 3) { char *u = cJSON_PrintUnformatted(j); CHECK(u, "printing failed"); size_t need = strlen(u); cJSON_free(u); t = (char *)malloc(need + 6); W.live_malloc++; CHECK(cJSON_PrintPreallocated(j, t, need + 6, 0), "printing into a buffer of %zu+6 failed", need); }
            else { t = cJSON_Print(j); CHECK(t, "printing failed"); cJSON_Minify(t); }
            CHECK(t, "printing failed"); cJSON *k = parse_exact(t, G.coin()); CHECK(k, "printed form is not accepted: %s", quoted(t, 300).c_str()); r = same(v, k, "$"); CHECK(r.empty(), "value changed by printing and re-parsing at %s: %s", r.c_str(), quoted(t, 300).c_str()); if (!deepobj) CHECK(cJSON_Compare(j, k, 1), "re-parsed value does not compare equal"); cJSON_Delete(k); cJSON_free(t);
        }
        cJSON *d = cJSON_Duplicate(j, 1); CHECK(d, "duplicate failed"); if (!deepobj) CHECK(cJSON_Compare(j, d, 1), "duplicate does not compare equal"); cJSON_Delete(j); r = same(v, d, "$"); CHECK(r.empty(), "duplicate differs at %s", r.c_str()); cJSON_Delete(d);
        { Bytes x = doc; if (G.chance(1, 4)) { x += G.one<const char *>({" ", "\n\n", "x", "]", "}", ",", " null", "\"", "1"}); Lenient g(x); g.doc(); if (g.p < doc.size()) x = doc; } bool longer = v.t == V::NUM && x.size() > doc.size(); if (longer) x = doc; if (G.chance(1, 8)) x = "\xef\xbb\xbf" + x; with_opts(x, true, &v); }
        if (!deepobj && doc.find('\0') == Bytes::npos) { // comments and white space outside strings are all that minifying removes
            Bytes plain, x; bool in = false; auto junk = [&] { for (int i = 0, n = 1 + G.below(3); i < n; i++) switch (G.below(4)) { case 0: x += G.one<const char *>({" ", "\t", "\r\n", "\n\n", "  "}); break; case 1: x += "//" + G.one<Bytes>({"", " a note", "\"quote", "/* x", " */", "//", "[1,", "\\"}) + "\n"; break; default: x += "/*" + G.one<Bytes>({"", " a note ", "\"quote", "//", "\n", "*", "***", "/", " // \n x", "{", "\\\"" }) + "*/"; } };
            junk(); for (size_t i = 0; i < doc.size(); i++) { char ch = doc[i]; if (in) { x += ch; plain += ch; if (ch == '\\') { x += doc[++i]; plain += doc[i]; } else if (ch == '"') in = false; if (!in && G.chance(1, 6)) junk(); continue; }
                if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') { x += ch; continue; } bool edge = strchr("[]{},:", ch); if (edge && G.chance(1, 6)) junk(); x += ch; plain += ch; if (ch == '"') in = true; else if (edge && G.chance(1, 6)) junk(); }
            if (G.chance(1, 4)) x += G.one<const char *>({"//", "// the end", "/*", "/* open", "/* *", "  "}); char *m = (char *)malloc(x.size() + 1); memcpy(m, x.c_str(), x.size() + 1); cJSON_Minify(m); CHECK(plain == m, "minifying %s gives %s", quoted(x, 300).c_str(), quoted(m, 300).c_str()); free(m); }
        if (count >= 5) nontrivial(); label("valid"); label("values", count); if (want_sample()) sample("valid " + quoted(doc, 300));
    } else {
        int n = 1 + G.below(4); Bytes d = doc;
        for (int i = 0; i < n; i++) { if (d.empty()) d = G.rbytes(G.below(10)); if (d.empty()) break; size_t p = G.below(d.size()); switch (G.below(6)) { case 0: d.resize(p); break; case 1: d[p] = (char)G.below(256); break; case 2: d.insert(p, 1, "\\\"{}[],:0-+.eEu\x80\xff"[G.below(18)]); break; case 3: d.erase(p, 1 + G.below(4)); break; case 4: d.insert(p, G.one<const char *>({"\\u", "\\ud800", "\\udc00", "\\uD83D\\u", "nul", "tru", "\xef\xbb\xbf", "1e999", "-", "\\", "\"", "\\u12"})); break; default: d.insert(p, d.substr(G.below(d.size()), G.below(20))); } }
        if (G.chance(1, 20)) { d = ""; for (int i = 0; i < 1200; i++) d += G.below(2) ? "[" : "{\"a\":"; }
        bool len = G.coin(); cJSON *j = parse_exact(d, len); { Bytes f = len ? d : Bytes(d.c_str()) + '\0'; Lenient g(f); if (!g.doc()) { label("mutant-broken"); CHECK(!j, "broken document accepted: %s", quoted(d, 300).c_str()); } } with_opts(d, false, nullptr); if (j) { char *t = G.coin() ? cJSON_Print(j) : cJSON_PrintUnformatted(j); if (t) { cJSON *k = parse_exact(t, G.coin()); if (k) cJSON_Delete(k); cJSON_free(t); } cJSON *dd = cJSON_Duplicate(j, 1); if (dd) { if (!deepobj) cJSON_Compare(j, dd, G.coin()); cJSON_Delete(dd); } cJSON_Delete(j); label("mutant-accepted"); } else label("mutant-rejected");
        { char *m = strdup(d.c_str()); cJSON_Minify(m); free(m); }
        nontrivial(); if (want_sample()) sample("mutant " + quoted(d, 300));
    }
    CHECK(W.live_malloc == base, "%ld heap blocks left", W.live_malloc - base);
}
