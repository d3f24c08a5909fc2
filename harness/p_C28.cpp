// JSON trees built and edited through the library, against a plain tree of values; allocation failures in between.
#include "sim.h"
#include <cmath>
#include <cfloat>
#include <cstdlib>
#include <cstring>
#include <memory>
extern "C" {
// the public cJSON interface
struct cJSON { cJSON *next, *prev, *child; int type; char *valuestring; int valueint; double valuedouble; char *string; };
struct cJSON_Hooks { void *(*malloc_fn)(size_t); void (*free_fn)(void *); };
void cJSON_InitHooks(cJSON_Hooks *);
cJSON *cJSON_Parse(const char *); char *cJSON_Print(const cJSON *); char *cJSON_PrintUnformatted(const cJSON *); char *cJSON_PrintBuffered(const cJSON *, int, int); int cJSON_PrintPreallocated(cJSON *, char *, const int, const int);
void cJSON_Delete(cJSON *); cJSON *cJSON_Duplicate(const cJSON *, int); int cJSON_Compare(const cJSON *, const cJSON *, int); void cJSON_Minify(char *); void cJSON_free(void *); void *cJSON_malloc(size_t);
int cJSON_GetArraySize(const cJSON *); cJSON *cJSON_GetArrayItem(const cJSON *, int); cJSON *cJSON_GetObjectItemCaseSensitive(const cJSON *, const char *); cJSON *cJSON_GetObjectItem(const cJSON *, const char *); int cJSON_HasObjectItem(const cJSON *, const char *); char *cJSON_GetStringValue(const cJSON *); double cJSON_GetNumberValue(const cJSON *);
int cJSON_IsInvalid(const cJSON *), cJSON_IsBool(const cJSON *), cJSON_IsRaw(const cJSON *), cJSON_IsFalse(const cJSON *), cJSON_IsTrue(const cJSON *), cJSON_IsNull(const cJSON *), cJSON_IsNumber(const cJSON *), cJSON_IsString(const cJSON *), cJSON_IsArray(const cJSON *), cJSON_IsObject(const cJSON *);
cJSON *cJSON_CreateNull(void), *cJSON_CreateTrue(void), *cJSON_CreateFalse(void), *cJSON_CreateBool(int), *cJSON_CreateNumber(double), *cJSON_CreateString(const char *), *cJSON_CreateRaw(const char *), *cJSON_CreateArray(void), *cJSON_CreateObject(void), *cJSON_CreateStringReference(const char *), *cJSON_CreateObjectReference(const cJSON *), *cJSON_CreateArrayReference(const cJSON *);
cJSON *cJSON_CreateIntArray(const int *, int), *cJSON_CreateFloatArray(const float *, int), *cJSON_CreateDoubleArray(const double *, int), *cJSON_CreateStringArray(const char *const *, int);
int cJSON_AddItemToArray(cJSON *, cJSON *), cJSON_AddItemToObject(cJSON *, const char *, cJSON *), cJSON_AddItemToObjectCS(cJSON *, const char *, cJSON *), cJSON_AddItemReferenceToArray(cJSON *, cJSON *), cJSON_AddItemReferenceToObject(cJSON *, const char *, cJSON *);
cJSON *cJSON_DetachItemViaPointer(cJSON *, cJSON *), *cJSON_DetachItemFromArray(cJSON *, int), *cJSON_DetachItemFromObject(cJSON *, const char *), *cJSON_DetachItemFromObjectCaseSensitive(cJSON *, const char *);
void cJSON_DeleteItemFromArray(cJSON *, int), cJSON_DeleteItemFromObject(cJSON *, const char *), cJSON_DeleteItemFromObjectCaseSensitive(cJSON *, const char *);
int cJSON_InsertItemInArray(cJSON *, int, cJSON *), cJSON_ReplaceItemViaPointer(cJSON *, cJSON *, cJSON *), cJSON_ReplaceItemInArray(cJSON *, int, cJSON *), cJSON_ReplaceItemInObject(cJSON *, const char *, cJSON *), cJSON_ReplaceItemInObjectCaseSensitive(cJSON *, const char *, cJSON *);
cJSON *cJSON_AddNullToObject(cJSON *, const char *), *cJSON_AddTrueToObject(cJSON *, const char *), *cJSON_AddFalseToObject(cJSON *, const char *), *cJSON_AddBoolToObject(cJSON *, const char *, int), *cJSON_AddNumberToObject(cJSON *, const char *, double), *cJSON_AddStringToObject(cJSON *, const char *, const char *), *cJSON_AddRawToObject(cJSON *, const char *, const char *), *cJSON_AddObjectToObject(cJSON *, const char *), *cJSON_AddArrayToObject(cJSON *, const char *);
double cJSON_SetNumberHelper(cJSON *, double); char *cJSON_SetValuestring(cJSON *, const char *);
}
const char *prop_rule = "a case is 20 to 200 operations (create, append, insert, name, reference, replace, detach, delete, set, duplicate, print, compare; half of the cases with an allocator that fails now and then, some with absent items or null arguments) on up to eight trees, each compared with its model after every operation; non-trivial when at least 15 operations changed a tree and at least one of them removed or replaced an item";
long prop_cases_quick = 24000, prop_cases_thorough = 150000; int prop_batch = 200; bool prop_guided = false;

enum T { NUL, TRUE_, FALSE_, NUM, STR, RAW, ARR, OBJ };
struct V; typedef std::shared_ptr<V> P;
struct V { T t = NUL; double d = 0; Bytes s; std::vector<P> a; bool named = false; Bytes key; cJSON *j = nullptr; bool ref = false; P up() const { return parent.lock(); } std::weak_ptr<V> parent; };
static P mk(T t) { P p = std::make_shared<V>(); p->t = t; return p; }
static P deep(const P &o) { P p = std::make_shared<V>(*o); p->parent.reset(); p->j = nullptr; for (auto &c : p->a) { c = deep(c); c->parent = p; } return p; }

// allocator handed to the library
static long alive; static int fail_in; static bool failed; static bool own;
static void *h_malloc(size_t n) { if (fail_in && !--fail_in) { failed = true; return nullptr; } void *p = malloc(n); memset(p, 0xA5, n); alive++; return p; }
static void h_free(void *p) { if (p) { alive--; free(p); } }
static long live() { return own ? alive : W.live_malloc; }

static std::string same(const V &v, const cJSON *j, const std::string &path, bool text) {
    if (!j) return path + ": missing"; int kinds = cJSON_IsNull(j) + cJSON_IsTrue(j) + cJSON_IsFalse(j) + cJSON_IsNumber(j) + cJSON_IsString(j) + cJSON_IsRaw(j) + cJSON_IsArray(j) + cJSON_IsObject(j); if (kinds != 1 || cJSON_IsInvalid(j)) return path + strf(": is of %d kinds", kinds);
    if (cJSON_IsBool(j) != (v.t == TRUE_ || v.t == FALSE_)) return path + ": boolean or not";
    switch (v.t) {
    case NUL: return cJSON_IsNull(j) ? "" : path + ": not null"; case TRUE_: return cJSON_IsTrue(j) ? "" : path + ": not true"; case FALSE_: return cJSON_IsFalse(j) ? "" : path + ": not false";
    case NUM: { if (text && !std::isfinite(v.d)) return cJSON_IsNull(j) ? "" : path + ": not null"; if (!cJSON_IsNumber(j)) return path + ": not a number"; double g = cJSON_GetNumberValue(j); if (!(g == v.d || (text && std::fabs(g - v.d) <= std::fmax(std::fabs(g), std::fabs(v.d)) * DBL_EPSILON))) return path + strf(": number %.17g instead of %.17g", g, v.d); int want = v.d >= INT32_MAX ? INT32_MAX : v.d <= (double)INT32_MIN ? INT32_MIN : (int)v.d; if (!text && j->valueint != want) return path + strf(": integer value %d of %.17g", j->valueint, v.d); return ""; }
    case STR: { if (!cJSON_IsString(j)) return path + ": not a string"; const char *s = cJSON_GetStringValue(j); if (!s || v.s != s) return path + ": string " + quoted(s ? s : "(null)", 60) + " instead of " + quoted(v.s, 60); return ""; }
    case RAW: if (text) { char w = v.s[0]; return (w == '[' ? cJSON_IsArray(j) && cJSON_GetArraySize(j) == 2 : w == '{' ? cJSON_IsObject(j) && cJSON_GetArraySize(j) == 1 : w == '"' ? cJSON_IsString(j) : cJSON_IsNumber(j)) ? "" : path + ": raw text lost"; } return cJSON_IsRaw(j) && j->valuestring && v.s == j->valuestring ? "" : path + ": raw text differs";
    case ARR: case OBJ: {
        if (v.t == ARR ? !cJSON_IsArray(j) : !cJSON_IsObject(j)) return path + ": wrong container type"; if (cJSON_GetArraySize(j) != (int)v.a.size()) return path + strf(": %d members instead of %zu", cJSON_GetArraySize(j), v.a.size());
        const cJSON *c = j->child; for (size_t i = 0; i < v.a.size(); i++, c = c->next) { if (!c) return path + ": list ends early"; if (v.t == OBJ && (!c->string || v.a[i]->key != c->string)) return path + strf(": member %zu is named %s instead of %s", i, quoted(c->string ? c->string : "(null)", 40).c_str(), quoted(v.a[i]->key, 40).c_str()); auto r = same(*v.a[i], c, path + strf("/%zu", i), text); if (!r.empty()) return r; if (cJSON_GetArrayItem(j, i) != c) return path + strf(": item %zu by index differs", i); }
        return c || cJSON_GetArrayItem(j, v.a.size()) || cJSON_GetArrayItem(j, -1) ? path + ": extra members" : "";
    } }
    return "";
}
static const char *KEYS[] = {"a", "A", "b", "B", "key", "KEY", "Key", "", "x y", "\"q\"", "\\", "\n", "k\xc3\xa9", "long-long-long-long-long-long-long-long-long-name", "0", "null"};
static const char *RAWS[] = {"[1,2]", "{\"r\":1}", "\"raw\"", "17"};
static const char *CONSTS[] = {"", "c", "constant text", "\"\\\n\t\x01", "\xe2\x82\xac"};
static Bytes gs() { Bytes s; int n = G.chance(1, 20) ? G.below(700) : G.below(12); for (int i = 0; i < n; i++) switch (G.below(6)) { case 0: s += (char)(1 + G.below(31)); break; case 1: s += G.one<const char *>({"\"", "\\", "/", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80"}); break; default: s += (char)(' ' + G.below(95)); } return s; }
static double gn() { switch (G.below(6)) { case 0: return G.range(-100, 100); case 1: return (double)(int64_t)G.any64(); case 2: return G.range(-100000, 100000) / 8.0; case 3: return G.one<double>({2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 1e300, -1e300, 1e-300, 0.1, 1.0 / 3, 4294967296.5}); case 4: return G.chance(1, 4) ? G.one<double>({INFINITY, -INFINITY}) : 0; default: return (double)G.range(-1000000, 1000000) * 1e-7; } }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eqi(const Bytes &x, const char *y) { if (x.size() != strlen(y)) return false; for (size_t i = 0; i < x.size(); i++) if (low((unsigned char)x[i]) != low((unsigned char)y[i])) return false; return true; }
static int findkey(const P &o, const char *k, bool cs) { for (size_t i = 0; i < o->a.size(); i++) if (cs ? o->a[i]->key == k : eqi(o->a[i]->key, k)) return i; return -1; }
static bool dups(const V &v, bool cs) { for (size_t i = 0; i < v.a.size(); i++) { if (v.t == OBJ) for (size_t k = 0; k < i; k++) if (cs ? v.a[i]->key == v.a[k]->key : eqi(v.a[i]->key, v.a[k]->key.c_str())) return true; if (dups(*v.a[i], cs)) return true; } return false; }
static int height(const V &v) { int h = 0; for (auto &c : v.a) h = std::max(h, height(*c)); return h + 1; }
static int size(const V &v) { int n = 1; for (auto &c : v.a) n += size(*c); return n; }
static bool inf(const V &v) { if (v.t == NUM && !std::isfinite(v.d)) return true; for (auto &c : v.a) if (inf(*c)) return true; return false; }

static std::vector<P> roots, frozen; static int changed, removed;
static void all(std::vector<P> &o, const P &p) { o.push_back(p); if (!p->ref) for (auto &c : p->a) all(o, c); }
static P root_of(P p) { while (P u = p->up()) p = u; return p; }
// records the library's items for a model tree of the same shape
static void attach(const P &p, cJSON *j) { p->j = j; if (p->ref) return; cJSON *c = j ? j->child : nullptr; for (auto &x : p->a) { attach(x, c); x->parent = p; c = c ? c->next : nullptr; } }
static cJSON *make(P &p) { // any new value
    switch (G.below(16)) {
    case 0: p = mk(NUL); return cJSON_CreateNull(); case 1: p = mk(TRUE_); return G.coin() ? cJSON_CreateTrue() : cJSON_CreateBool(G.one<int>({1, 2, -1})); case 2: p = mk(FALSE_); return G.coin() ? cJSON_CreateFalse() : cJSON_CreateBool(0);
    case 3: case 4: p = mk(NUM); p->d = gn(); return cJSON_CreateNumber(p->d); case 5: case 6: p = mk(STR); p->s = gs(); return cJSON_CreateString(p->s.c_str()); case 7: p = mk(RAW); p->s = RAWS[G.below(4)]; return cJSON_CreateRaw(p->s.c_str());
    case 8: case 9: p = mk(ARR); return cJSON_CreateArray(); case 10: case 11: p = mk(OBJ); return cJSON_CreateObject();
    case 12: { p = mk(STR); const char *c = CONSTS[G.below(5)]; p->s = c; p->ref = true; return cJSON_CreateStringReference(c); }
    case 13: { P f = frozen[G.below(frozen.size())]; if (f->t != ARR && f->t != OBJ) { p = mk(NUL); return cJSON_CreateNull(); } p = deep(f); p->named = false; p->ref = true; return f->t == ARR ? cJSON_CreateArrayReference(f->j->child) : cJSON_CreateObjectReference(f->j->child); }
    default: { p = mk(ARR); int n = G.below(8), k = G.below(4); int iv[8]; float fv[8]; double dv[8]; Bytes sv[8]; const char *cv[8];
        for (int i = 0; i < n; i++) { P c = mk(k == 3 ? STR : NUM); if (k == 0) c->d = iv[i] = (int)G.any64(); else if (k == 1) c->d = fv[i] = (float)G.range(-100000, 100000) / 16; else if (k == 2) c->d = dv[i] = gn(); else { c->s = sv[i] = gs(); cv[i] = sv[i].c_str(); } p->a.push_back(c); }
        for (auto &c : p->a) c->parent = p; return k == 0 ? cJSON_CreateIntArray(iv, n) : k == 1 ? cJSON_CreateFloatArray(fv, n) : k == 2 ? cJSON_CreateDoubleArray(dv, n) : cJSON_CreateStringArray(cv, n); }
    }
}
static void drop_root(const P &p) { for (size_t i = 0; i < roots.size(); i++) if (roots[i] == p) { roots.erase(roots.begin() + i); return; } }
static void insert(const P &c, size_t at, const P &x) { drop_root(x); x->parent = c; c->a.insert(c->a.begin() + std::min(at, c->a.size()), x); changed++; }
static P take(const P &c, size_t at) { P x = c->a[at]; c->a.erase(c->a.begin() + at); x->parent.reset(); changed++; removed++; return x; }
static std::string text(char *t) { std::string s = t; cJSON_free(t); return s; }

static void print_all(const P &r) {
    cJSON *j = r->j; char *u = cJSON_PrintUnformatted(j), *f = cJSON_Print(j); CHECK(u && f, "printing failed"); std::string U = text(u), F = text(f);
    for (const std::string *t : {&U, &F}) { cJSON *k = cJSON_Parse(t->c_str()); CHECK(k, "printed form is not accepted: %s", quoted(*t, 300).c_str()); auto e = same(*r, k, "$", true); CHECK(e.empty(), "printed tree differs at %s: %s", e.c_str(), quoted(*t, 300).c_str()); cJSON_Delete(k); }
    { std::string m = F; m.push_back(0); cJSON_Minify(&m[0]); CHECK(U == m.c_str(), "minified print %s differs from the unformatted one %s", quoted(m.c_str(), 200).c_str(), quoted(U, 200).c_str()); }
    bool fmt = G.coin(); const std::string &want = fmt ? F : U; char *b = cJSON_PrintBuffered(j, G.below(60), fmt); CHECK(b, "buffered printing failed"); CHECK(want == text(b), "buffered print differs");
    int len = G.coin() ? G.below(want.size() + 8) : want.size() + 5 + G.below(4); char *buf = (char *)malloc(len ? len : 1); int ok = cJSON_PrintPreallocated(j, buf, len, fmt); if (ok) CHECK(strnlen(buf, len) < (size_t)len && want == buf, "print into a buffer of %d differs", len); else CHECK(len < (int)want.size() + 5, "print of %zu bytes into a buffer of %d failed", want.size(), len); free(buf); label(ok ? "prealloc-ok" : "prealloc-short");
}
static std::string tree(const V &v) { Bytes o; switch (v.t) { case NUL: return "null"; case TRUE_: return "true"; case FALSE_: return "false"; case NUM: return strf("%g", v.d); case STR: return quoted(v.s, 12); case RAW: return "raw"; case ARR: o = "["; for (auto &c : v.a) o += tree(*c) + ","; return o + "]"; case OBJ: o = "{"; for (auto &c : v.a) o += quoted(c->key, 12) + ":" + tree(*c) + ","; return o + "}"; } return ""; }

void prop_setup() { sim_clock_active(true); engine_ready(); prop_case(); engine_done(); }
void prop_case() {
    steps_reset(60000000); own = G.coin(); cJSON_Hooks hooks = {h_malloc, h_free}; if (own) cJSON_InitHooks(&hooks); else if (G.chance(1, 4)) { cJSON_InitHooks(&hooks); cJSON_InitHooks(nullptr); } else if (G.chance(1, 4)) { cJSON_Hooks none = {nullptr, nullptr}; cJSON_InitHooks(&none); }
    long base = live(); bool faults = own && G.coin(); int ops = 20 + G.below(G.chance(1, 5) ? 180 : 60); bool nulls = G.chance(1, 3);
    for (int i = 0, n = 1 + G.below(3); i < n; i++) { Bytes d = G.one<Bytes>({"[1,\"two\",{\"three\":[4]}]", "{\"f\":\"x\",\"g\":[true,false,null]}", "[]", "{}", "\"frozen\"", "12.5", "[[[[\"deep\"]]]]"}); cJSON *j = cJSON_Parse(d.c_str()); CHECK(j, "parse"); P p; std::function<P(cJSON *)> rd = [&](cJSON *x) { P q = mk(cJSON_IsNull(x) ? NUL : cJSON_IsTrue(x) ? TRUE_ : cJSON_IsFalse(x) ? FALSE_ : cJSON_IsNumber(x) ? NUM : cJSON_IsString(x) ? STR : cJSON_IsArray(x) ? ARR : OBJ); q->d = x->valuedouble; if (q->t == STR) q->s = x->valuestring; if (x->string) { q->named = true; q->key = x->string; } q->j = x; for (cJSON *c = x->child; c; c = c->next) { P y = rd(c); y->parent = q; q->a.push_back(y); } return q; }; frozen.push_back(rd(j)); }
    { P p = mk(G.coin() ? OBJ : ARR); p->j = p->t == OBJ ? cJSON_CreateObject() : cJSON_CreateArray(); roots.push_back(p); }
    std::string what;
    for (int op = 0; op < ops; op++) {
        std::vector<P> nodes, conts; for (auto &r : roots) all(nodes, r); for (auto &n : nodes) if ((n->t == ARR || n->t == OBJ) && !n->ref) conts.push_back(n);
        P n = nodes[G.below(nodes.size())], c = conts.empty() ? P() : conts[G.below(conts.size())]; const char *k = KEYS[G.below(16)]; long before = live(); bool fault = faults && G.chance(1, 3); failed = false; fail_in = 0; auto arm = [&] { if (fault) fail_in = 1 + G.below(G.coin() ? 3 : 30); };
        int kind = G.below(27); P x; // x: a root that may be put into c
        if (c) { std::vector<P> free; P rc = root_of(c); for (auto &r : roots) if (r != rc) free.push_back(r); if (!free.empty()) x = free[G.below(free.size())]; }
        what = strf("operation %d (kind %d)", op, kind); bool noroom = roots.size() >= 8; int total = 0; for (auto &r : roots) total += size(*r);
        switch (kind) {
        case 0: case 1: case 2: case 3: { if (noroom || total > 400) break; arm(); P p; cJSON *j = make(p); if (!j) { CHECK(failed, "creating a value failed"); CHECK(live() == before, "%s: failed creation left %ld blocks", what.c_str(), live() - before); break; } attach(p, j); roots.push_back(p); break; }
        case 4: case 5: case 6: if (c && x && height(*root_of(c)) + height(*x) < 40) {
            arm(); if (c->t == ARR) { CHECK(cJSON_AddItemToArray(c->j, x->j), "%s: append failed", what.c_str()); insert(c, c->a.size(), x); }
            else { bool cs = G.coin(); int ok = cs ? cJSON_AddItemToObjectCS(c->j, k, x->j) : cJSON_AddItemToObject(c->j, k, x->j); if (ok) { x->named = true; x->key = k; insert(c, c->a.size(), x); } else CHECK(failed && live() == before, "%s: adding a member failed or left %ld blocks", what.c_str(), live() - before); } break; } break;
        case 7: case 8: if (c && x && (c->t == ARR || x->named) && height(*root_of(c)) + height(*x) < 40) { int at = G.below(c->a.size() + 3) - 1; int ok = cJSON_InsertItemInArray(c->j, at, x->j); CHECK(!!ok == (at >= 0), "%s: insert at %d of %zu returned %d", what.c_str(), at, c->a.size(), ok); if (ok) insert(c, at, x); } break;
        case 9: case 10: if (c && c->t == OBJ && total < 400) { P p; cJSON *j = nullptr; Bytes s = gs(); double d = gn(); arm(); switch (G.below(9)) { case 0: p = mk(NUL); j = cJSON_AddNullToObject(c->j, k); break; case 1: p = mk(TRUE_); j = cJSON_AddTrueToObject(c->j, k); break; case 2: p = mk(FALSE_); j = cJSON_AddFalseToObject(c->j, k); break; case 3: p = mk(TRUE_); j = cJSON_AddBoolToObject(c->j, k, 4); break; case 4: p = mk(NUM); p->d = d; j = cJSON_AddNumberToObject(c->j, k, d); break; case 5: p = mk(STR); p->s = s; j = cJSON_AddStringToObject(c->j, k, s.c_str()); break; case 6: p = mk(RAW); p->s = "[1,2]"; j = cJSON_AddRawToObject(c->j, k, "[1,2]"); break; case 7: p = mk(OBJ); j = cJSON_AddObjectToObject(c->j, k); break; default: p = mk(ARR); j = cJSON_AddArrayToObject(c->j, k); }
            if (!j) { CHECK(failed && live() == before, "%s: adding a new member failed or left %ld blocks", what.c_str(), live() - before); break; } p->named = true; p->key = k; p->j = j; insert(c, c->a.size(), p); } break;
        case 11: if (c && total < 400) { P f = frozen[G.below(frozen.size())]; std::vector<P> fs; all(fs, f); f = fs[G.below(fs.size())]; arm(); int ok = c->t == ARR ? cJSON_AddItemReferenceToArray(c->j, f->j) : cJSON_AddItemReferenceToObject(c->j, k, f->j); if (!ok) { CHECK(failed && live() == before, "%s: adding a reference failed or left %ld blocks", what.c_str(), live() - before); break; } P p = deep(f); p->ref = true; p->named = c->t == OBJ; p->key = c->t == OBJ ? k : ""; p->j = cJSON_GetArrayItem(c->j, c->a.size()); insert(c, c->a.size(), p); label("reference"); } break;
        case 12: case 13: if (c && !noroom) { cJSON *j; int at; if (c->t == OBJ && G.coin()) { bool cs = G.coin(); at = findkey(c, k, cs); j = cs ? cJSON_DetachItemFromObjectCaseSensitive(c->j, k) : cJSON_DetachItemFromObject(c->j, k); } else { at = G.below(c->a.size() + 2) - 1; if (at >= (int)c->a.size()) { j = cJSON_DetachItemFromArray(c->j, at); at = -1; } else if (at >= 0 && G.coin()) j = cJSON_DetachItemViaPointer(c->j, c->a[at]->j); else j = cJSON_DetachItemFromArray(c->j, at); }
            if (at < 0) CHECK(!j, "%s: an item that is not there was detached", what.c_str()); else { CHECK(j == c->a[at]->j, "%s: wrong item detached", what.c_str()); P p = take(c, at); CHECK(!j->next, "%s: detached item still has a successor", what.c_str()); roots.push_back(p); } } break;
        case 14: if (c) { int at; if (c->t == OBJ && G.coin()) { bool cs = G.coin(); at = findkey(c, k, cs); if (cs) cJSON_DeleteItemFromObjectCaseSensitive(c->j, k); else cJSON_DeleteItemFromObject(c->j, k); } else { at = G.below(c->a.size() + 2) - 1; cJSON_DeleteItemFromArray(c->j, at); if (at >= (int)c->a.size()) at = -1; } if (at >= 0) take(c, at); } break;
        case 15: case 16: if (c && x && height(*root_of(c)) + height(*x) < 40) { int at, ok; bool name = false; bool cs = G.coin(); if (c->t == OBJ && G.coin()) { at = findkey(c, k, cs); name = true; arm(); ok = cs ? cJSON_ReplaceItemInObjectCaseSensitive(c->j, k, x->j) : cJSON_ReplaceItemInObject(c->j, k, x->j); } else { if (c->t == OBJ && !x->named) break; at = G.below(c->a.size() + 2) - 1; if (at >= (int)c->a.size()) { ok = cJSON_ReplaceItemInArray(c->j, at, x->j); at = -1; } else if (at >= 0 && G.coin()) ok = cJSON_ReplaceItemViaPointer(c->j, c->a[at]->j, x->j); else ok = cJSON_ReplaceItemInArray(c->j, at, x->j); }
            if (name) { x->named = x->j->string != nullptr; x->key = x->named ? x->j->string : ""; } if (at < 0 || failed) { CHECK(!ok, "%s: replacing an item that is not there, or without memory, succeeded", what.c_str()); break; } CHECK(ok, "%s: replacing failed", what.c_str()); if (name) CHECK(x->named && x->key == k, "%s: replacement named %s instead of %s", what.c_str(), quoted(x->key, 40).c_str(), quoted(k, 40).c_str()); take(c, at); insert(c, at, x); } break;
        case 17: if (n->t == NUM && !n->ref) { n->d = gn(); cJSON_SetNumberHelper(n->j, n->d); changed++; } break;
        case 18: { std::vector<P> ss; for (auto &y : nodes) if (y->t == STR) ss.push_back(y); P y = ss.empty() || G.chance(1, 4) ? n : ss[G.below(ss.size())]; if (y->t == RAW) break; Bytes s = G.coin() ? gs() : y->s + gs(); arm(); char *r = cJSON_SetValuestring(y->j, s.c_str()); if (y->t != STR || y->ref) CHECK(!r, "%s: text set on something that cannot hold it", what.c_str()); else if (!r) CHECK(failed, "%s: setting a text failed", what.c_str()); else { CHECK(s == r, "%s: text set is %s", what.c_str(), quoted(r, 60).c_str()); y->s = s; changed++; label("set-string"); } break; }
        case 19: if (!noroom && total + size(*n) < 600) { bool rec = G.chance(3, 4); arm(); cJSON *j = cJSON_Duplicate(n->j, rec); if (!j) { CHECK(failed && live() == before, "%s: duplicating failed or left %ld blocks", what.c_str(), live() - before); break; } P p = deep(n); std::function<void(V &)> un = [&](V &v) { v.ref = false; for (auto &y : v.a) un(*y); }; un(*p); if (!rec) p->a.clear(); attach(p, j); p->named = j->string != nullptr; p->key = p->named ? j->string : ""; CHECK(p->key == (n->named ? n->key : "") || !n->named, "%s: duplicate is named %s", what.c_str(), quoted(p->key, 40).c_str()); roots.push_back(p);
            if (rec && height(*n) < 8 && !dups(*n, false) && !inf(*n)) { CHECK(cJSON_Compare(n->j, j, 1) && cJSON_Compare(j, n->j, 0), "%s: duplicate does not compare equal", what.c_str()); } label("duplicate"); } break;
        case 20: if (roots.size() > 1) { P r = roots[G.below(roots.size())]; cJSON_Delete(r->j); drop_root(r); removed++; } break;
        case 21: { P r = root_of(n); if (G.chance(1, 3)) print_all(r); if (fault) { arm(); before = live(); char *t = G.coin() ? cJSON_Print(r->j) : G.coin() ? cJSON_PrintUnformatted(r->j) : cJSON_PrintBuffered(r->j, G.below(30), 1); fail_in = 0; if (t) cJSON_free(t); else CHECK(failed, "%s: printing failed", what.c_str()); CHECK(live() == before, "%s: printing left %ld blocks", what.c_str(), live() - before); label("print-fault"); } break; }
        case 22: { P y = nodes[G.below(nodes.size())]; if (height(*n) < 8 && height(*y) < 8 && !dups(*n, false) && !dups(*y, false) && !inf(*n) && !inf(*y)) { // equal exactly when the values are (objects regardless of order)
                bool cs = G.coin(); std::function<bool(const V &, const V &)> eq = [&](const V &p, const V &q) { if (p.t != q.t) return false; switch (p.t) { case NUM: return std::fabs(p.d - q.d) <= std::fmax(std::fabs(p.d), std::fabs(q.d)) * DBL_EPSILON; case STR: case RAW: return p.s == q.s; case ARR: if (p.a.size() != q.a.size()) return false; for (size_t i = 0; i < p.a.size(); i++) if (!eq(*p.a[i], *q.a[i])) return false; return true; case OBJ: if (p.a.size() != q.a.size()) return false; for (auto &m : p.a) { const V *o = nullptr; for (auto &z : q.a) if (cs ? z->key == m->key : eqi(z->key, m->key.c_str())) { o = z.get(); break; } if (!o || !eq(*m, *o)) return false; } return true; default: return true; } };
                bool want = eq(*n, *y); CHECK(!!cJSON_Compare(n->j, y->j, cs) == want, "%s: comparison gives %d for %s and %s", what.c_str(), !want, tree(*n).c_str(), tree(*y).c_str()); label(want ? "equal" : "unequal"); } break; }
        case 23: if (c) { int at = findkey(c, k, false), ac = findkey(c, k, true); if (c->t == OBJ) { CHECK(cJSON_GetObjectItem(c->j, k) == (at < 0 ? nullptr : c->a[at]->j), "%s: member %s is not found by name", what.c_str(), quoted(k, 40).c_str()); CHECK(cJSON_GetObjectItemCaseSensitive(c->j, k) == (ac < 0 ? nullptr : c->a[ac]->j), "%s: member %s is not found by exact name", what.c_str(), quoted(k, 40).c_str()); CHECK(!!cJSON_HasObjectItem(c->j, k) == (at >= 0), "%s: presence of %s", what.c_str(), quoted(k, 40).c_str()); } if (at >= 0) label("found"); } break;
        case 24: if (nulls && c) switch (G.below(12)) { // absent arguments are refused and change nothing
            case 0: CHECK(!cJSON_AddItemToArray(c->j, nullptr), "%s", what.c_str()); break; case 1: CHECK(!cJSON_AddItemToObject(c->j, k, nullptr), "%s", what.c_str()); break; case 2: CHECK(!cJSON_InsertItemInArray(c->j, G.below(c->a.size() + 1), nullptr), "%s", what.c_str()); break; case 3: CHECK(!cJSON_ReplaceItemInArray(c->j, 0, nullptr), "%s", what.c_str()); break; case 4: CHECK(!cJSON_AddItemToArray(c->j, c->j) && !cJSON_AddItemToObject(c->j, k, c->j), "%s: put into itself", what.c_str()); break; case 5: CHECK(!cJSON_DetachItemFromObject(c->j, nullptr) && !cJSON_DetachItemViaPointer(c->j, nullptr), "%s", what.c_str()); break;
            case 6: CHECK(!cJSON_AddItemReferenceToArray(c->j, nullptr) && !cJSON_AddItemReferenceToObject(c->j, k, nullptr) && !cJSON_AddItemReferenceToArray(nullptr, c->j), "%s", what.c_str()); break; case 7: CHECK(!cJSON_AddStringToObject(c->j, nullptr, "x") && !cJSON_AddNumberToObject(nullptr, k, 1) && !cJSON_AddStringToObject(c->j, k, nullptr), "%s", what.c_str()); break; case 8: CHECK(!cJSON_CreateString(nullptr) && !cJSON_CreateRaw(nullptr) && !cJSON_CreateIntArray(nullptr, 3) && !cJSON_CreateStringArray(nullptr, 3), "%s", what.c_str()); break; case 9: cJSON_Delete(nullptr); cJSON_DeleteItemFromArray(c->j, -1); CHECK(!cJSON_Duplicate(nullptr, 1) && !cJSON_Compare(nullptr, c->j, 1), "%s", what.c_str()); break;
            case 10: { P st; for (auto &y : nodes) if (y->t == STR && !y->ref) st = y; if (st) { CHECK(!cJSON_SetValuestring(st->j, nullptr), "%s: absent text set", what.c_str()); } break; } default: if (!c->a.empty()) CHECK(cJSON_ReplaceItemViaPointer(c->j, c->a[0]->j, c->a[0]->j), "%s: replacing an item by itself", what.c_str()); } break;
        case 25: if (c && x && !c->a.empty()) { // moved within its container
            size_t at = G.below(c->a.size()); P p = take(c, at); CHECK(cJSON_DetachItemViaPointer(c->j, p->j) == p->j, "%s: detach", what.c_str()); size_t to = G.below(c->a.size() + 1); CHECK(cJSON_InsertItemInArray(c->j, to, p->j), "%s: insert", what.c_str()); insert(c, to, p); } break;
        case 26: { P r = root_of(n); std::function<bool(const V &)> odd = [&](const V &v) { if (v.t == RAW || (v.t == NUM && !std::isfinite(v.d))) return true; for (auto &y : v.a) if (odd(*y)) return true; return false; }; if (odd(*r)) break; // written out and read again: later edits work on the tree that was read
            char *t = G.coin() ? cJSON_Print(r->j) : cJSON_PrintUnformatted(r->j); CHECK(t, "%s: printing failed", what.c_str()); arm(); cJSON *j = cJSON_Parse(t); fail_in = 0; cJSON_free(t); if (!j) { CHECK(failed && live() == before, "%s: reading failed or left %ld blocks", what.c_str(), live() - before); break; } auto e = same(*r, j, "$", true); CHECK(e.empty(), "%s: read tree differs at %s", what.c_str(), e.c_str()); cJSON_Delete(r->j);
            std::function<void(V &)> un = [&](V &v) { if (v.t == NUM) v.d = v.j->valuedouble; for (auto &y : v.a) un(*y); }; r->named = false; r->key.clear(); std::function<void(V &)> own_all = [&](V &v) { v.ref = false; for (auto &y : v.a) { y->named = v.t == OBJ; if (v.t != OBJ) y->key.clear(); own_all(*y); } }; own_all(*r); attach(r, j); un(*r); label("reread"); break; }
        }
        fail_in = 0; if (failed) label("fault"); if (G.chance(1, 3) || op == ops - 1 || failed) for (auto &r : roots) { auto e = same(*r, r->j, "$", false); CHECK(e.empty(), "after %s the tree %s differs at %s", what.c_str(), tree(*r).substr(0, 200).c_str(), e.c_str()); }
    }
    if (want_sample() && !roots.empty()) sample(strf("%d operations, %d changes, faults %d: ", ops, changed, faults) + tree(*roots[0]).substr(0, 300));
    for (auto &r : roots) { print_all(r); cJSON_Delete(r->j); }
    for (auto &f : frozen) { auto e = same(*f, f->j, "$", false); CHECK(e.empty(), "a tree that was only referred to changed at %s", e.c_str()); cJSON_Delete(f->j); }
    CHECK(live() == base, "%ld heap blocks left", live() - base); if (changed >= 15 && removed) nontrivial(); label("changes", changed); cJSON_InitHooks(nullptr);
}
