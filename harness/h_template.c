/* P30: templated resource addresses.  Templates and addresses are generated
 * together, so that what an address means is known without asking the code.
 *   template-addresses  threads expand templates, match addresses and take the
 *                       parameters out of them
 *   template-server     threads read templated addresses from a server that has
 *                       a handler, and for some a validator, per template       */
#include "sim.h"
#include "jmini.h"
#include "mcp_server.h"
#include "mcp_template.h"
#include "mcp_template_optimized.h"
#include "mcp_template_security.h"
#include "mcp_arena.h"
#include "mcp_json.h"
#include "mcp_log.h"
#include "internal/transport_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { T_STR, T_INT, T_FLOAT, T_BOOL, T_PREFIX, T_SUFFIX, T_MIDDLE, T_EXACT, T_MAX };
enum { REQUIRED, OPTIONAL, DEFAULTED };
#define MAXT 150
#define MAXP 3
struct par { int type, opt; char name[110], pat[12], def[12], after[8]; };
struct tmpl { char text[900], pre[120]; int np, k, veto; struct par p[MAXP]; };
static struct tmpl tm[MAXT];
static int ntm, oom;
struct val { char s[260]; int absent, ok, empty; double num; };       /* one parameter of one address */
struct addr { struct tmpl *t; struct val v[MAXP]; char uri[1024]; int match; };

static void gen_templates(int n) {
    static const char *const after[] = {"/", "/x/", ";y=", "@", "/end"}, *const pats[] = {"ab*", "*yz", "ab*bc", "abc"};
    int lng = C(4) == 1;
    ntm = n;
    for (int i = 0; i < n; i++) {
        struct tmpl *t = &tm[i];
        memset(t, 0, sizeof *t);
        t->k = i;
        snprintf(t->pre, sizeof t->pre, (const char *[]){"t%d://", "t%d:", "res/t%d/", "resource://a.rather.long.name.of.a.host.example.org:8080/collections/of/many/things/t%d/"}[lng ? 3 : C(3)], i);
        t->np = n > 20 ? 1 : (int)CR(1, MAXP);
        size_t l = (size_t)snprintf(t->text, sizeof t->text, "%s", t->pre);
        for (int k = 0; k < t->np; k++) {
            struct par *p = &t->p[k];
            p->type = (int)C(T_MAX);
            p->opt = C(3) ? REQUIRED : (int)CR(OPTIONAL, DEFAULTED);
            snprintf(p->name, sizeof p->name, "n%d%s", k, C(2) ? "_p" : "");
            if (lng && C(2)) memset(p->name + strlen(p->name), 'q', CR(20, 100));
            if (p->type >= T_PREFIX) strcpy(p->pat, pats[p->type - T_PREFIX]);
            strcpy(p->def, (const char *[]){"dflt", "42", "1.5", "true", "ab1", "1yz", "ab1bc", "abc"}[p->type]);
            strcpy(p->after, k == t->np - 1 && C(2) ? "" : after[C(5)]);
            const char *ty = (const char *[]){C(2) ? "" : ":string", ":int", ":float", ":bool", ":pattern:", ":pattern:", ":pattern:", ":pattern:"}[p->type];
            l += (size_t)snprintf(t->text + l, sizeof t->text - l, "{%s%s%s%s%s%s}%s", p->name, p->opt == OPTIONAL ? "?" : "", ty, p->pat,
                                  p->opt == DEFAULTED ? "=" : "", p->opt == DEFAULTED ? p->def : "", p->after);
        }
        t->veto = (int)C(4);
        sim_log("template %d: %s", i, t->text);
    }
}
/* a value that the parameter accepts (ok) or refuses */
static void gen_value(struct par *p, struct val *v, int ok) {
    char w[260];
    memset(v, 0, sizeof *v);
    v->ok = ok;
    size_t n = W(8) ? WR(1, 12) : WR(1, 200);
    for (size_t i = 0; i < n; i++) w[i] = (char)('b' + W(20));
    w[n] = 0;
    switch (p->type) {
    case T_STR:
        if (!ok) { v->s[0] = 0; v->empty = 1; break; }
        strcpy(v->s, w);
        if (W(4) == 1) for (size_t i = 0; i + 1 < n; i += 2) { v->s[i] = (char)0xC3; v->s[i + 1] = (char)0xA9; }
        break;
    case T_INT:
        if (ok) { int x = W(6) == 0 ? 2147483647 : W(6) == 0 ? -2147483647 - 1 : (int)W(2000) - 1000; snprintf(v->s, sizeof v->s, "%d", x); v->num = x; }
        else strcpy(v->s, (const char *[]){"12x", "x", "2147483648", "1.5", "99999999999999999999", "-2147483649"}[W(6)]);
        break;
    case T_FLOAT: {
        static const char *const f[] = {"2.5", "-0.25", "1e3", "7", "0", "-12"};
        static const double fv[] = {2.5, -0.25, 1000, 7, 0, -12};
        if (ok) { u32 i = W(6); strcpy(v->s, f[i]); v->num = fv[i]; }
        else strcpy(v->s, (const char *[]){"1.5.2", "x1", "2,5", "1e999"}[W(4)]);
        break; }
    case T_BOOL:
        if (ok) { strcpy(v->s, (const char *[]){"true", "false", "1", "0"}[W(4)]); v->num = v->s[0] == 't' || v->s[0] == '1'; }
        else strcpy(v->s, (const char *[]){"yes", "TRUE", "2", "truee", "10"}[W(5)]);
        break;
    case T_PREFIX: snprintf(v->s, sizeof v->s, "%s%s", ok ? "ab" : "aB", W(4) || !ok ? w : ""); break;
    case T_SUFFIX: snprintf(v->s, sizeof v->s, "%s%s", W(4) || !ok ? w : "", ok ? "yz" : "zy"); break;
    case T_MIDDLE: if (!ok && W(3) == 1) strcpy(v->s, "abc"); else snprintf(v->s, sizeof v->s, "ab%s%s", W(4) || !ok ? w : "", ok ? "bc" : "by"); break;
    default: strcpy(v->s, ok ? "abc" : (const char *[]){"ab", "abcd", "ABC", "bc"}[W(4)]); break;
    }
}
static void gen_addr(struct addr *a) {
    struct tmpl *t = &tm[W((u32)ntm)];
    memset(a, 0, sizeof *a);
    a->t = t; a->match = 1;
    int bad = W(3) == 0 ? (int)W((u32)t->np) : -1;
    size_t l = (size_t)snprintf(a->uri, sizeof a->uri, "%s", t->pre);
    for (int k = 0; k < t->np; k++) {
        struct par *p = &t->p[k];
        if (k == bad && p->type == T_STR && p->opt != REQUIRED) bad = -1;
        gen_value(p, &a->v[k], k != bad);
        if (k != bad && p->opt != REQUIRED && p->type == T_STR && W(4) == 1) { a->v[k].s[0] = 0; a->v[k].empty = 1; }
        l += (size_t)snprintf(a->uri + l, sizeof a->uri - l, "%s%s", a->v[k].s, p->after);
    }
    if (bad >= 0) a->match = 0;
    if (a->match && W(8) == 1) {
        /* an address of another shape: foreign start, more after the end, or cut short */
        int last_open = t->p[t->np - 1].after[0] == 0;
        u32 r = W(3);
        if (r == 0) a->uri[0] = 'T';
        else if (r == 1 && !last_open) strcat(a->uri, "~more");
        else if (r == 2 && !last_open && t->p[t->np - 1].opt == REQUIRED) a->uri[l - 1] = 0;
        else a->uri[0] = 'u';
        if (!strncmp(a->uri, "ues/t", 5) || a->uri[0] == 'T' || a->uri[0] == 'u' || r) a->match = 0;
    }
}
static void check_params(struct addr *a, const mcp_json_t *j, const char *where) {
    CHECK(mcp_json_get_type(j) == MCP_JSON_OBJECT, "wrong-parameters", "%s of %.60s: not an object", where, a->uri);
    for (int k = 0; k < a->t->np; k++) {
        struct par *p = &a->t->p[k];
        struct val *v = &a->v[k];
        mcp_json_t *x = mcp_json_object_get_property(j, p->name);
        CHECK(x, "wrong-parameters", "%s of %.60s from %.60s: %s is missing", where, a->uri, a->t->text, p->name);
        const char *s = 0; double n = 0; bool b = false;
        if (p->type == T_INT || p->type == T_FLOAT) CHECK(mcp_json_get_type(x) == MCP_JSON_NUMBER && mcp_json_get_number(x, &n) == 0 && n == v->num, "wrong-parameters", "%s of %.60s from %.60s: %s is %g, not %s", where, a->uri, a->t->text, p->name, n, v->s);
        else if (p->type == T_BOOL) CHECK(mcp_json_get_type(x) == MCP_JSON_BOOLEAN && mcp_json_get_boolean(x, &b) == 0 && b == (v->num != 0), "wrong-parameters", "%s of %.60s from %.60s: %s is not %s", where, a->uri, a->t->text, p->name, v->s);
        else {
            CHECK(mcp_json_get_type(x) == MCP_JSON_STRING && mcp_json_get_string(x, &s) == 0 && s, "wrong-parameters", "%s of %.60s from %.60s: %s is no string", where, a->uri, a->t->text, p->name);
            CHECK(!strcmp(s, v->s) || (v->empty && p->opt == DEFAULTED && !strcmp(s, p->def)), "wrong-parameters", "%s of %.60s from %.60s: %s is %.60s", where, a->uri, a->t->text, p->name, s);
        }
    }
}
/* ---- template-addresses -------------------------------------------------------------- */
static void do_match(struct addr *a) {
    u64 f = sim_alloc_failed();
    int r = mcp_template_matches_optimized(a->uri, a->t->text);
    int failed = sim_alloc_failed() != f;
    sim_log("match %.80s : %d", a->uri, r);
    CHECK(r == a->match || (failed && !r), "wrong-match", "%.100s against %.100s: %s", a->uri, a->t->text, r ? "matches" : "does not match");
    if (failed) sim_probe("allocation failed in a match");
}
static void do_other(struct addr *a) {
    struct tmpl *o = &tm[W((u32)ntm)];
    if (o == a->t) return;
    CHECK(!mcp_template_matches_optimized(a->uri, o->text), "wrong-match", "%.100s matches the foreign template %.100s", a->uri, o->text);
}
static void do_extract(struct addr *a) {
    u64 f = sim_alloc_failed();
    mcp_json_t *j = mcp_template_extract_params_optimized(a->uri, a->t->text);
    int failed = sim_alloc_failed() != f;
    sim_log("extract %.80s : %d", a->uri, j != 0);
    CHECK((j != 0) == a->match || (failed && !j), "wrong-match", "%.100s against %.100s: %s", a->uri, a->t->text, j ? "parameters found" : "no parameters");
    if (j) { check_params(a, j, "parameters"); mcp_json_destroy(j); }
    if (failed) sim_probe("allocation failed in taking parameters out");
}
static void do_expand(struct tmpl *t) {
    char js[1800], want[1024];
    size_t l = 0, m = (size_t)snprintf(want, sizeof want, "%s", t->pre);
    int fail = 0;
    js[l++] = '{';
    for (int k = 0; k < t->np; k++) {
        struct par *p = &t->p[k];
        struct val v;
        int ok = W(6) != 0 || p->type == T_STR, absent = W(5) == 0;
        gen_value(p, &v, ok);
        if (absent && p->opt == OPTIONAL && p->type != T_STR) absent = 0;       /* what an empty number means is not defined */
        if (absent) {
            if (p->opt == REQUIRED) fail = 1;
            snprintf(v.s, sizeof v.s, "%s", p->opt == DEFAULTED ? p->def : "");
        } else {
            if (!ok) fail = 1;
            int num = ok && (p->type == T_INT || p->type == T_FLOAT) && W(2) && strcmp(v.s, "1e3");
            l += (size_t)snprintf(js + l, sizeof js - l, "%s\"%s\":%s%s%s", l > 1 ? "," : "", p->name, num ? "" : "\"", v.s, num ? "" : "\"");
        }
        m += (size_t)snprintf(want + m, sizeof want - m, "%s%s", v.s, p->after);
    }
    js[l++] = '}'; js[l] = 0;
    sim_nofault_begin();
    mcp_json_t *j = mcp_json_parse(js);
    sim_nofault_end();
    CHECK(j, "setup", "the parameters could not be parsed: %s", js);
    u64 f = sim_alloc_failed();
    char *u = mcp_template_expand(t->text, j);
    int failed = sim_alloc_failed() != f;
    sim_log("expand %s with %.200s : %.80s", t->text, js, u ? u : "(none)");
    if (fail) CHECK(!u, "wrong-expansion", "%.100s with %.100s gave %.100s", t->text, js, u);
    else {
        CHECK(u || failed, "wrong-expansion", "%.100s with %.100s gave nothing", t->text, js);
        CHECK(!u || !strcmp(u, want), "wrong-expansion", "%.100s with %.100s gave %.100s", t->text, js, u);
    }
    if (failed) sim_probe("allocation failed in an expansion");
    free(u);
    mcp_json_destroy(j);
}
static void user(void *arg) {
    (void)arg;
    sim_nofault_begin();
    if (mcp_arena_init_current_thread(4096)) sim_inconclusive("no arena");
    sim_nofault_end();
    int n = (int)WR(2, ntm > 20 ? 60 : 14);
    for (int i = 0; i < n; i++) {
        struct addr a;
        gen_addr(&a);
        sim_oom_scope(oom);
        switch (W(5)) {
        case 0: do_match(&a); break;
        case 1: do_extract(&a); break;
        case 2: do_match(&a); do_extract(&a); break;
        case 3: do_expand(a.t); break;
        default: do_other(&a); break;
        }
        sim_oom_scope(0);
        sim_state((u64)a.match << 8 | (u64)a.t->p[0].type << 4 | (u64)a.t->p[0].opt);
        sim_mark_nontrivial();
        if (W(6) == 0) mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}
static void run_addresses(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    oom = (int)C(3) == 1;
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP) | (oom ? F(DK_OOM) : 0));
    sim_limit(4000 * SEC, 6000000);
    gen_templates(C(5) == 1 ? (int)CR(120, MAXT) : (int)CR(1, 6));
    if (mcp_arena_init_current_thread(4096)) sim_inconclusive("no arena");
    int t[4], nt = (int)CR(1, 4);
    if (ntm > 20) {
        /* more templates than are kept parsed */
        for (int i = 0; i < ntm; i++) mcp_template_matches_optimized("none", tm[i].text);
        if (ntm > 128) sim_probe("more templates than the cache holds");
    }
    for (int i = 0; i < nt; i++) t[i] = sim_spawn(user, 0);
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    if (W(3) == 0) {
        mcp_template_cache_cleanup();
        t[0] = sim_spawn(user, 0); sim_join(t[0]);
    }
    mcp_template_cache_cleanup();
    mcp_arena_destroy_current_thread();
}
HARNESS(template_addresses, "P30", "template-addresses", run_addresses,
        "template parsing, template cache, matching, parameter extraction, expansion, JSON objects, arena",
        "callers (threads of the harness), clock, memory allocator",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one template operation was made", 2)
MEMORY_HARNESS(template_addresses_mem, "memory-template", run_addresses,
        "template parsing, template cache, matching, parameter extraction, expansion, JSON objects, arena",
        "callers (threads of the harness), clock, memory allocator", 1)

/* ---- template-server ------------------------------------------------------------------ */
static mcp_server_t *srv;
static mcp_transport_message_callback_t cb;
static void *cb_ud;
static mcp_transport_t tr;
static int has_res, has_default;
#define NREQ 64
static struct { struct addr a; int runs, veto, done; } R[NREQ];
static int nreq;
static int tr_start(mcp_transport_t *t, mcp_transport_message_callback_t c, void *ud, mcp_transport_error_callback_t e) { (void)t; (void)e; cb = c; cb_ud = ud; return 0; }
static int tr_stop(mcp_transport_t *t) { (void)t; return 0; }
/* veto: 1 own validator refuses, 2 own validator accepts, otherwise the default one decides */
static int vetoed(struct tmpl *t) { return t->veto == 1 || (has_default && t->veto != 2 && t->k % 3 == 0); }
static struct addr *open_request(const char *uri) {
    for (int i = 0; i < nreq; i++) if (!R[i].done && !strcmp(R[i].a.uri, uri)) return &R[i].a;
    return 0;
}
static mcp_error_code_t put_one(const char *what, int k, const char *uri, mcp_content_item_t ***content, size_t *count) {
    char b[1200];
    snprintf(b, sizeof b, "%s%d %s", what, k, uri);
    *content = malloc(sizeof **content);
    (*content)[0] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, "text/plain", b, strlen(b) + 1);
    *count = 1;
    return MCP_ERROR_NONE;
}
static mcp_error_code_t on_templ(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***content, size_t *count, char **emsg) {
    (void)s; (void)emsg;
    struct tmpl *t = ud;
    CHECK(t >= tm && t < tm + ntm, "wrong-handler", "a handler got foreign user data");
    struct addr *a = open_request(uri);
    CHECK(a, "wrong-handler", "a handler was called with %.100s, which nobody asked for", uri);
    CHECK(a->t == t && a->match, "wrong-handler", "the handler of %.100s was called for %.100s", t->text, uri);
    CHECK(!vetoed(t), "not-refused", "the handler of %.100s was called for %.100s, which the validator refuses", t->text, uri);
    if (W(3) == 0) sim_sleep_ns(WR(0, 30) * MS);
    return put_one("T", t->k, uri, content, count);
}
static mcp_error_code_t on_res(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***content, size_t *count, char **emsg) {
    (void)s; (void)ud; (void)emsg;
    struct addr *a = open_request(uri);
    CHECK(a && !a->match, "wrong-handler", "the general handler was called for %.100s, which belongs to a template", uri);
    return put_one("R", 0, uri, content, count);
}
static bool validator(const char *text, const mcp_json_t *params, void *ud) {
    struct tmpl *t = ud;
    CHECK(t >= tm && t < tm + ntm && text && !strcmp(text, t->text), "wrong-validator", "the validator of %.100s was asked about %.100s", t->text, text);
    CHECK(params, "wrong-parameters", "the validator of %.60s got no parameters", t->text);
    /* the parameters are those of some request in progress */
    for (int i = 0; i < nreq; i++) if (!R[i].done && R[i].a.t == t && R[i].a.match) {
        int same = 1;
        for (int k = 0; k < t->np && same; k++) {
            mcp_json_t *x = mcp_json_object_get_property(params, t->p[k].name);
            const char *s = 0; double n = 0;
            if (!x) same = 0;
            else if (t->p[k].type == T_INT || t->p[k].type == T_FLOAT) same = mcp_json_get_number(x, &n) == 0 && n == R[i].a.v[k].num;
            else if (t->p[k].type != T_BOOL) same = mcp_json_get_string(x, &s) == 0 && (!strcmp(s, R[i].a.v[k].s) || (R[i].a.v[k].empty && !strcmp(s, t->p[k].def)));
            else { bool b = false; same = mcp_json_get_boolean(x, &b) == 0 && b == (R[i].a.v[k].num != 0); }
        }
        if (same) { check_params(&R[i].a, params, "validator"); if (W(3) == 0) sim_sleep_ns(WR(0, 10) * MS); return !vetoed(t); }
    }
    sim_fail("wrong-parameters", "the validator of %.100s got the parameters of no request", t->text);
    return false;
}
static bool default_validator(const char *text, const mcp_json_t *params, void *ud) {
    CHECK(ud == &ntm && text, "wrong-validator", "the default validator got foreign user data");
    for (int i = 0; i < ntm; i++) if (!strcmp(tm[i].text, text)) {
        CHECK(tm[i].veto != 1 && tm[i].veto != 2, "wrong-validator", "the default validator was asked about %.100s, which has its own", text);
        return validator(text, params, &tm[i]);
    }
    sim_fail("wrong-validator", "the default validator was asked about %.100s", text);
    return false;
}
static void reader(void *arg) {
    (void)arg;
    int n = (int)WR(1, 6);
    for (int i = 0; i < n && nreq < NREQ; i++) {
        int q = nreq++;
        struct addr *a = &R[q].a;
        gen_addr(a);
        /* now and then an address somebody has read before */
        if (q && W(4) == 1) *a = R[W((u32)q)].a;
        char *msg = malloc(1400);
        size_t l = (size_t)snprintf(msg, 1400, "{\"jsonrpc\":\"2.0\",\"id\":%d,\"method\":\"read_resource\",\"params\":{\"uri\":\"%s\"}}", q + 1, a->uri);
        msg = realloc(msg, l);
        int err = 0;
        sim_log("request %d: %.100s", q, a->uri);
        char *resp = cb(cb_ud, msg, l, &err);
        sim_log("answer %d: %.200s", q, resp ? resp : "(none)");
        free(msg);
        CHECK(resp, "no-answer", "a read of %.100s was not answered", a->uri);
        J *j = j_parse(resp);
        CHECK(j && j->t == 'o', "no-answer", "the answer is not JSON");
        J *res = j_get(j, "result"), *e = j_get(j, "error");
        int refused = a->match && vetoed(a->t);
        if (refused || (!a->match && !has_res)) CHECK(e && !res, "not-refused", "a read of %.100s, which must be refused, was answered: %.100s", a->uri, resp);
        else {
            CHECK(res && !e, "refused", "a read of %.100s for template %.100s failed: %.100s", a->uri, a->t->text, resp);
            J *c = j_get(res, "contents");
            CHECK(c && c->t == 'a' && c->cnt == 1 && c->v[0]->t == 'o', "wrong-content", "content missing: %.100s", resp);
            J *tx = j_get(c->v[0], "text");
            char want[1200];
            snprintf(want, sizeof want, "%s%d %s", a->match ? "T" : "R", a->match ? a->t->k : 0, a->uri);
            CHECK(tx && tx->t == 's' && !strcmp(tx->s, want), "wrong-content", "a read of %.60s gave %.100s", a->uri, tx && tx->t == 's' ? tx->s : "?");
        }
        j_free(j);
        free(resp);
        R[q].done = 1;
        sim_state((u64)a->match << 8 | (u64)refused << 7 | (u64)a->t->p[0].type << 2 | (u64)a->t->p[0].opt);
        sim_mark_nontrivial();
        if (W(5) == 1) sim_sleep_ns(WR(1, 30) * MS);
    }
}
static void run_server(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP));
    sim_limit(4000 * SEC, 12000000);
    memset(R, 0, sizeof R); nreq = 0;
    gen_templates(C(8) == 1 ? (int)CR(90, MAXT) : (int)CR(1, 6));
    has_res = (int)C(2); has_default = C(3) == 1;
    mcp_server_config_t cfg = {0};
    mcp_server_capabilities_t cap = {0};
    cfg.name = "sim"; cfg.version = "1";
    cfg.thread_pool_size = 1; cfg.task_queue_size = 8;
    cfg.cache_capacity = CR(1, 4);
    cap.resources_supported = true;
    srv = mcp_server_create(&cfg, &cap);
    CHECK(srv, "setup", "the server could not be made");
    /* the last registration of a template and of its validator counts */
    for (int i = 0; i < ntm; i++) if (C(6) == 1) CHECK(mcp_server_register_template_handler(srv, tm[i].text, on_templ, 0) == 0, "setup", "template %d was refused", i);
    for (int i = 0; i < ntm; i++) CHECK(mcp_server_register_template_handler(srv, tm[i].text, on_templ, &tm[i]) == 0, "setup", "template %d was refused", i);
    if (has_res) mcp_server_set_resource_handler(srv, on_res, 0);
    for (int i = 0; i < ntm; i++) if (tm[i].veto <= 2 && tm[i].veto > 0) {
        if (C(4) == 1) CHECK(mcp_server_set_template_validator(srv, tm[i].text, validator, &tm[ntm - 1 - i]) == 0, "setup", "validator %d was refused", i);
        CHECK(mcp_server_set_template_validator(srv, tm[i].text, validator, &tm[i]) == 0, "setup", "validator %d was refused", i);
    }
    if (has_default) CHECK(mcp_server_set_default_template_validator(srv, default_validator, &ntm) == 0, "setup", "the default validator was refused");
    memset(&tr, 0, sizeof tr);
    tr.type = MCP_TRANSPORT_TYPE_SERVER;
    tr.server.start = tr_start; tr.server.stop = tr_stop;
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the server could not be started");
    int t[4], nt = (int)CR(1, 4);
    for (int i = 0; i < nt; i++) t[i] = sim_spawn(reader, 0);
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    CHECK(mcp_server_stop(srv) == 0, "stop", "stop failed");
    mcp_server_destroy(srv);
    mcp_template_cache_cleanup();
}
HARNESS(template_server, "P30", "template-server", run_server,
        "server, message parsing, dispatch, template routing, template cache, template validators, resource cache, JSON reader and writer",
        "transport (threads of the harness call the server's message callback), handlers, validators, clock, memory allocator",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one read was made", 2)
