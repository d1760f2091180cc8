/* P08, P09, P22: the server's message processing, driven through a transport of
 * the harness's own whose threads hand it messages, as the real ones do. */
#include "sim.h"
#include "mcp_server.h"
#include "mcp_types.h"
#include "mcp_auth.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_json.h"
#include "mcp_log.h"
#include "mcp_memory_pool.h"
#include "internal/server_internal.h"
#include "internal/transport_internal.h"
#include "jmini.h"
#include <stdio.h>

#define NT 6
#define NTOK 1200
#define MAXM 24
enum { MODE_RESP, MODE_AUTH, MODE_OOM };
enum { K_PING, K_CALL, K_FAIL, K_BADPAR, K_READ, K_TEMPL, K_NOTFOUND, K_TOOLS, K_RES, K_TEMPLS, K_UNKNOWN, K_PERF, K_NOTIF, K_RESP, K_INVALID, K_MAX };
static int mode, nthr;
static mcp_server_t *srv;
static mcp_transport_t tr;
static mcp_transport_message_callback_t cb;
static void *cb_ud;
static int tr_wait, tr_stopped, in_cb;
static u64 stop_begin, stop_end, last_cb;
static u32 grace;
static int ntools, nres, ntempl, handlers_on;
static char key[80];
static int cached_res;
static struct tok { int runs, may, begun_after_stop; } T[NTOK];
static int ntok;
static int res_runs;

struct mem { int kind, tok, n, served, isreq, answered, cred; u64 id; char arg[200], jarg[700], tool[24], uri[160]; };
struct msg { int n, batch, whole_bad; struct mem m[MAXM]; char *txt; size_t len; };

/* ---- handlers ---------------------------------------------------------------- */
static void handler_time(void) {
    CHECK(!stop_end || stop_end - stop_begin + 1 * MS >= grace * MS, "late-handler", "a handler runs after stop returned after %llu ms (grace %u)", (unsigned long long)((stop_end - stop_begin) / MS), grace);
    if (W(3) == 1) sim_sleep_ns(WR(1, 80) * MS);
    CHECK(!stop_end || stop_end - stop_begin + 1 * MS >= grace * MS, "still-running", "stop returned after %llu ms (grace %u) while a handler was running", (unsigned long long)((stop_end - stop_begin) / MS), grace);
}
static int put(mcp_content_item_t ***content, size_t *count, int n, char **txt) {
    *content = malloc(sizeof **content * (size_t)n);
    *count = (size_t)n;
    for (int i = 0; i < n; i++) {
        (*content)[i] = mcp_content_item_create(MCP_CONTENT_TYPE_TEXT, i & 1 ? 0 : "text/plain", txt[i], strlen(txt[i]) + 1);
        if (!(*content)[i]) {
            while (i--) mcp_content_item_free((*content)[i]);
            free(*content); *content = 0; *count = 0;
            return 0;
        }
    }
    return 1;
}
static mcp_error_code_t on_tool(mcp_server_t *s, const char *name, const mcp_json_t *params, void *ud, mcp_content_item_t ***content, size_t *count, bool *is_error, char **emsg) {
    const char *a = 0;
    (void)s;
    CHECK(ud == &mode, "handler-data", "the tool handler got a foreign user pointer");
    CHECK(params, "handler-args", "tool %s called without its arguments", name);
    mcp_json_get_string(mcp_json_object_get_property(params, "a"), &a);
    CHECK(a, "handler-args", "tool %s called without its argument", name);
    int t = atoi(a);
    CHECK(t >= 0 && t < ntok, "handler-args", "tool %s called with argument %.40s", name, a);
    T[t].runs++;
    sim_log("tool %s token %d", name, t);
    CHECK(T[t].may, "served", "tool %s was run for a request that must not be served (token %d)", name, t);
    CHECK(T[t].runs == 1, "run-twice", "a tool was run %d times for one request", T[t].runs);
    char keep[220];
    snprintf(keep, sizeof keep, "%s", a);
    handler_time();
    CHECK(!strcmp(keep, a), "handler-args", "the argument changed while the tool was running");
    *is_error = !strcmp(name, "iserr");
    if (!strcmp(name, "fail")) {
        if (W(2)) { *emsg = malloc(300); snprintf(*emsg, 300, "fail:%s", a); }
        return (mcp_error_code_t)(-32000 - t % 90);
    }
    char b[3][300], *p[3] = {b[0], b[1], b[2]};
    for (int i = 0; i < 3; i++) snprintf(b[i], 300, "%d:%s:%s", i, name, a);
    return put(content, count, !strcmp(name, "multi") ? 3 : 1, p) ? MCP_ERROR_NONE : MCP_ERROR_INTERNAL_ERROR;
}
static mcp_error_code_t read_common(const char *what, const char *uri, mcp_content_item_t ***content, size_t *count) {
    char b[2][300], *p[2] = {b[0], b[1]};
    for (int i = 0; i < 2; i++) snprintf(b[i], 300, "%s%d:%s", what, i, uri);
    return put(content, count, strchr(uri, '2') ? 2 : 1, p) ? MCP_ERROR_NONE : MCP_ERROR_INTERNAL_ERROR;
}
static int allowed_uri(const char *uri) { return strstr(uri, "deny") == 0; }
static mcp_error_code_t on_res(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***content, size_t *count, char **emsg) {
    (void)s;
    CHECK(ud == &nres, "handler-data", "the resource handler got a foreign user pointer");
    CHECK(mode != MODE_AUTH || allowed_uri(uri), "served", "a resource was read that must not be served: %s", uri);
    res_runs++;
    handler_time();
    if (strncmp(uri, "res://", 6)) { if (W(2)) *emsg = simh_strdup("no such thing"); return MCP_ERROR_RESOURCE_NOT_FOUND; }
    return read_common("C", uri, content, count);
}
static mcp_error_code_t on_templ(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***content, size_t *count, char **emsg) {
    (void)s; (void)emsg;
    CHECK(ud == &ntempl, "handler-data", "the template handler got a foreign user pointer");
    CHECK(mode != MODE_AUTH || allowed_uri(uri), "served", "a resource was read that must not be served: %s", uri);
    handler_time();
    return read_common("T", uri, content, count);
}
/* ---- the transport ------------------------------------------------------------- */
static int tr_start(mcp_transport_t *t, mcp_transport_message_callback_t c, void *ud, mcp_transport_error_callback_t e) {
    (void)t; (void)e;
    cb = c; cb_ud = ud;
    return 0;
}
static int no_cb(void *a) { (void)a; return in_cb == 0; }
static int tr_stop(mcp_transport_t *t) {
    (void)t;
    if (tr_wait) { tr_stopped = 1; sim_wait_until(no_cb, 0, NEVER); }
    return 0;
}
/* ---- messages -------------------------------------------------------------------- */
static const char *const special[] = {"plain", "quo\"te", "back\\slash", "line\nbreak", "tab\tr\r", "\xc3\xa9\xe2\x82\xac", "\xef\xbc\xa1\xeb\xb7\xaf\xdf\xbf\xc2\x80\xe0\xa0\x80", "\xf0\x9f\x98\x80", "sl/ash", "ctl\x01\x1f", "{\\\"a\\\":[1,2]}", "", "bs\bff\f"};
enum { CR_NONE, CR_RIGHT, CR_PREFIX, CR_LONGER, CR_OTHER, CR_EMPTY, CR_NUMBER, CR_NESTED, CR_CASE, CR_HUGE, CR_NULL, CR_LAST, CR_MAX };
static void cred_text(int c, char *o, size_t cap) {
    char b[90];
    snprintf(b, sizeof b, "%s", key);
    size_t l = strlen(b);
    switch (c) {
    case CR_NONE: o[0] = 0; return;
    case CR_PREFIX: b[l - 1] = 0; break;
    case CR_LONGER: b[l] = 'x'; b[l + 1] = 0; break;
    case CR_OTHER: b[W((u32)l)] ^= 1; break;
    case CR_LAST: b[l - 1] ^= 2; break;
    case CR_EMPTY: b[0] = 0; break;
    case CR_NUMBER: snprintf(o, cap, "\"apiKey\":%u,", W(1000)); return;
    case CR_NULL: snprintf(o, cap, "\"apiKey\":null,"); return;
    case CR_NESTED: snprintf(o, cap, "\"auth\":{\"apiKey\":\"%s\"},", key); return;
    case CR_CASE: { int k = 0; for (size_t i = 0; i < l; i++) if (b[i] >= 'a' && b[i] <= 'z') { b[i] -= 32; k = 1; break; } if (!k) b[0] ^= 1; break; }
    case CR_HUGE: { size_t n = (size_t)snprintf(o, cap, "\"apiKey\":\""); for (int i = 0; i < 1100; i++) o[n++] = b[i % l]; snprintf(o + n, cap - n, "\","); return; }
    default: break;
    }
    snprintf(o, cap, "\"apiKey\":\"%s\",", b);
}
static void gen_mem(struct msg *g, struct mem *m, u64 id) {
    memset(m, 0, sizeof *m);
    m->id = id;
    u32 r = W(30);
    m->kind = r < 8 ? K_CALL : r < 10 ? K_FAIL : r < 12 ? K_BADPAR : r < 16 ? K_READ : r < 18 ? K_TEMPL : r == 18 ? K_NOTFOUND : r == 19 ? K_TOOLS : r == 20 ? K_RES : r == 21 ? K_TEMPLS
            : r == 22 ? K_UNKNOWN : r == 23 ? K_PERF : r < 26 ? K_NOTIF : r == 26 ? K_RESP : r == 27 ? K_INVALID : K_PING;
    if (m->kind == K_INVALID && !g->batch && W(2)) m->kind = K_CALL;
    m->n = (int)W(8);
    m->cred = mode == MODE_AUTH ? (W(3) == 0 ? CR_RIGHT : W(4) == 0 ? CR_NONE : (int)W(CR_MAX)) : CR_NONE;
    m->isreq = m->kind != K_NOTIF && m->kind != K_RESP && m->kind != K_INVALID;
    if (ntok >= NTOK) sim_inconclusive("too many tokens");
    m->tok = ntok++;
    snprintf(m->arg, sizeof m->arg, "%d %s", m->tok, special[W(sizeof special / sizeof *special)]);
    if (W(4) == 1) { size_t l = strlen(m->arg), k = WR(1, 120); memset(m->arg + l, 'y', k); m->arg[l + k] = 0; }
    json_escape(m->jarg, sizeof m->jarg, m->arg, W(2) ? (int)W(4) : 0);
    strcpy(m->tool, m->kind == K_FAIL ? "fail" : (const char *[]){"echo", "multi", "iserr", "echo"}[W(4)]);
    if (m->kind == K_READ) snprintf(m->uri, sizeof m->uri, "res://thing/%u", W(6));
    if (m->kind == K_TEMPL) snprintf(m->uri, sizeof m->uri, W(2) ? "tmpl://%u/a" : "item:%u", W(40));
    if (m->kind == K_NOTFOUND) snprintf(m->uri, sizeof m->uri, "none:%u", W(5));
}
static const char *const meth[] = {"ping", "call_tool", "call_tool", "call_tool", "read_resource", "read_resource", "read_resource", "list_tools", "list_resources", "list_resource_templates"};
static size_t mem_text(struct mem *m, char *o, size_t cap) {
    char cr[1400], par[2600], id[40], name[80];
    cred_text(m->cred, cr, sizeof cr);
    par[0] = 0;
    switch (m->kind) {
    case K_CALL: case K_FAIL:
        snprintf(par, sizeof par, "{%s\"name\":\"%s\",\"arguments\":{\"a\":\"%s\"%s}}", cr, m->tool, m->jarg, m->n == 1 ? ",\"b\":[1,{\"c\":null}]" : ""); break;
    case K_BADPAR:
        switch (m->n) {
        case 0: break;
        case 1: snprintf(par, sizeof par, "[1,2]"); break;
        case 2: snprintf(par, sizeof par, "{%s\"name\":7,\"arguments\":{\"a\":\"%s\"}}", cr, m->jarg); break;
        case 3: snprintf(par, sizeof par, "{%s\"nam\":\"echo\",\"arguments\":{\"a\":\"%s\"}}", cr, m->jarg); break;
        default: snprintf(par, sizeof par, "{%s\"x\":null}", cr); break;
        }
        break;
    case K_READ: case K_TEMPL: case K_NOTFOUND: snprintf(par, sizeof par, "{%s\"uri\":\"%s\"}", cr, m->uri); break;
    default:
        if (*cr || m->n == 0) { snprintf(par, sizeof par, "{%s\"z\":1}", cr); }
        break;
    }
    snprintf(name, sizeof name, "%s", m->kind <= K_TEMPLS ? meth[m->kind] : m->kind == K_PERF ? m->n & 1 ? "get_performance_metrics" : "reset_performance_metrics" :
             m->kind == K_NOTIF ? m->n & 1 ? "call_tool" : "notifications/x" : (const char *[]){"call_toolx", "call_too", "", "pong", "list_tool", "CALL_TOOL", "rpc.x", "read_resourcd"}[m->n]);
    if (m->kind == K_BADPAR && m->n >= 4) strcpy(name, "read_resource");
    if (m->kind == K_NOTIF && m->n & 1) snprintf(par, sizeof par, "{%s\"name\":\"echo\",\"arguments\":{\"a\":\"%s\"}}", cr, m->jarg);
    snprintf(id, sizeof id, "%llu", (unsigned long long)m->id);
    if (m->kind == K_INVALID) switch (m->n) {
    case 0: return (size_t)snprintf(o, cap, "5");
    case 1: return (size_t)snprintf(o, cap, "{\"jsonrpc\":\"2.0\",\"id\":%s}", id);
    case 2: return (size_t)snprintf(o, cap, "{\"jsonrpc\":\"2.0\",\"id\":\"abc\",\"method\":\"ping\"}");
    case 3: return (size_t)snprintf(o, cap, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":5}", id);
    case 4: return (size_t)snprintf(o, cap, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"call_tool\",\"params\":\"str\"}", id);
    case 5: return (size_t)snprintf(o, cap, "[]");
    case 6: return (size_t)snprintf(o, cap, "null");
    default: return (size_t)snprintf(o, cap, "{}");
    }
    if (m->kind == K_RESP) return (size_t)snprintf(o, cap, m->n & 1 ? "{\"jsonrpc\":\"2.0\",\"id\":%s,\"result\":{\"a\":1}}" : "{\"jsonrpc\":\"2.0\",\"id\":%s,\"error\":{\"code\":-1,\"message\":\"m\"}}", id);
    if (m->kind == K_NOTIF) return (size_t)snprintf(o, cap, "{\"jsonrpc\":\"2.0\",\"method\":\"%s\"%s%s}", name, *par ? ",\"params\":" : "", par);
    return (size_t)snprintf(o, cap, W(2) ? "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"%s\"%s%s}" : "{ \"id\" : %s,\n\"method\":\"%s\"%s%s , \"jsonrpc\":\"2.0\" }", id, name, *par ? ",\"params\":" : "", par);
}
static void gen_msg(struct msg *g) {
    static u64 next_id = 1;
    size_t cap = 200, n = 0;
    memset(g, 0, sizeof *g);
    u32 r = W(12);
    g->batch = r < 5;
    g->n = g->batch ? (int)(W(8) == 1 ? WR(17, MAXM) : WR(1, 6)) : 1;
    if (r == 11 && W(2)) g->whole_bad = 1;
    u64 base = W(5) == 1 ? W(2) ? 9007199254740000ull : 4294967290ull : next_id % 1000 + 1;
    for (int i = 0; i < g->n; i++) { gen_mem(g, &g->m[i], base + (u64)i); cap += 4000; }
    next_id += 7;
    /* who is to be served */
    int first_ok = 0;
    for (int i = 0; i < g->n; i++) if (g->m[i].kind != K_BADPAR || g->m[i].n >= 2) { if (i == 0 && g->m[0].isreq && g->m[0].cred == CR_RIGHT) first_ok = 1; }
    for (int i = 0; i < g->n; i++) {
        struct mem *m = &g->m[i];
        int own = m->cred == CR_RIGHT && !(m->kind == K_BADPAR && m->n < 2);
        m->served = mode != MODE_AUTH || first_ok || own;
        T[m->tok].may = m->served && (m->kind == K_CALL || m->kind == K_FAIL);
    }
    g->txt = malloc(cap);
    if (g->batch) g->txt[n++] = '[';
    for (int i = 0; i < g->n; i++) {
        if (i) g->txt[n++] = ',';
        n += mem_text(&g->m[i], g->txt + n, cap - n);
    }
    if (g->batch) g->txt[n++] = ']';
    if (g->whole_bad) {
        switch (W(6)) {
        case 0: n = WR(1, (u32)n - 1); break;
        case 1: g->txt[n++] = 'x'; break;
        case 2: n = (size_t)sprintf(g->txt, "[]"); break;
        case 3: n = (size_t)sprintf(g->txt, "hello"); break;
        case 4: n = (size_t)sprintf(g->txt, "17"); break;
        default: memmove(g->txt + 1, g->txt, n); g->txt[0] = '['; n++; break;
        }
        for (int i = 0; i < g->n; i++) T[g->m[i].tok].may = 0;
    }
    g->len = n;
    g->txt = realloc(g->txt, n + 1);
    g->txt[n] = 0;
}
/* ---- the oracle -------------------------------------------------------------------- */
static void check_items(struct mem *m, J *arr, const char *pre, const char *tail, int want) {
    CHECK(arr && arr->t == 'a' && arr->cnt == want, "wrong-result", "request %d (kind %d): %d content items, expected %d", m->tok, m->kind, arr ? arr->cnt : -1, want);
    for (int i = 0; i < want; i++) {
        char b[500];
        const char *t = j_gets(arr->v[i], "text"), *mt = j_gets(arr->v[i], "mimeType");
        if (m->kind == K_CALL) snprintf(b, sizeof b, "%d:%s:%s", i, pre, tail);
        else snprintf(b, sizeof b, "%s%d:%s", pre, i, tail);
        CHECK(t && !strcmp(t, b), "wrong-result", "request %d (kind %d): item %d is '%s', expected '%s'", m->tok, m->kind, i, t ? t : "(none)", b);
        CHECK(i & 1 ? !mt || !*mt : mt && !strcmp(mt, "text/plain"), "wrong-result", "request %d: item %d has media type '%s'", m->tok, i, mt ? mt : "(none)");
        if (m->kind != K_CALL) { const char *u = j_gets(arr->v[i], "uri"); CHECK(u && !strcmp(u, m->uri), "wrong-result", "request %d: item %d has uri '%s', expected '%s'", m->tok, i, u ? u : "(none)", m->uri); }
    }
}
static void check_list(struct mem *m, J *arr, const char *field, int want) {
    CHECK(arr && arr->t == 'a' && arr->cnt == want, "wrong-result", "list request %d: %d entries, expected %d", m->tok, arr ? arr->cnt : -1, want);
    int seen = 0;
    for (int i = 0; i < want; i++) {
        const char *s = j_gets(arr->v[i], field), *d = j_gets(arr->v[i], "description");
        const char *p = s ? strrchr(s, '-') : 0;
        int k = p ? atoi(p + 1) : -1;
        CHECK(k >= 0 && k < want && !(seen >> k & 1), "wrong-result", "list request %d: entry '%s' unknown or twice", m->tok, s ? s : "(none)");
        seen |= 1 << k;
        char b[40];
        snprintf(b, sizeof b, "about %d", k);
        CHECK(d && !strcmp(d, b), "wrong-result", "list request %d: entry %d described as '%s'", m->tok, k, d ? d : "(none)");
        if (m->kind == K_TOOLS) {
            J *sc = j_get(arr->v[i], "inputSchema");
            CHECK(k == 0 ? !sc : sc && j_get(j_get(sc, "properties"), "p0") && j_get(sc, "properties")->cnt == k, "wrong-result", "list request %d: tool %d has a wrong schema", m->tok, k);
        }
    }
}
static int err_ok(J *e) { J *c = j_get(e, "code"); return e && e->t == 'o' && c && c->t == 'd' && c->n != 0 && j_gets(e, "message"); }
/* lenient: an error instead of the result is acceptable (an allocation failed) */
static void check_resp(struct mem *m, J *r, int lenient) {
    J *res = j_get(r, "result"), *e = j_get(r, "error");
    const char *v = j_gets(r, "jsonrpc");
    CHECK(v && !strcmp(v, "2.0"), "malformed", "the response to request %d has no version", m->tok);
    CHECK(!!res != !!e, "malformed", "the response to request %d has %s", m->tok, res ? "both result and error" : "neither result nor error");
    if (e) CHECK(err_ok(e), "malformed", "the error response to request %d is malformed", m->tok);
    int code = e ? (int)j_get(e, "code")->n : 0;
    if (lenient && e) return;
    if (!m->served && m->kind != K_PING) {
        CHECK(e, "disclosed", "request %d (kind %d) without the right credential got a result", m->tok, m->kind);
        return;
    }
    switch (m->kind) {
    case K_PING: CHECK(res && j_gets(res, "message") && !strcmp(j_gets(res, "message"), "pong"), "wrong-result", "ping %d answered with something else", m->tok); break;
    case K_CALL:
        CHECK(res, mode == MODE_AUTH ? "refused" : "wrong-result", "request %d (tool %s) got error %d", m->tok, m->tool, code);
        CHECK(T[m->tok].runs == 1, "not-run", "request %d was answered, its tool ran %d times", m->tok, T[m->tok].runs);
        J *ie = j_get(res, "isError");
        CHECK(ie && ie->t == 'b' && ie->b == !strcmp(m->tool, "iserr"), "wrong-result", "request %d: wrong error flag", m->tok);
        check_items(m, j_get(res, "content"), m->tool, m->arg, !strcmp(m->tool, "multi") ? 3 : 1);
        break;
    case K_FAIL: {
        char b[300];
        snprintf(b, sizeof b, "fail:%s", m->arg);
        const char *t = e ? j_gets(e, "message") : 0;
        CHECK(code == -32000 - m->tok % 90, "wrong-result", "request %d: error %d, expected %d", m->tok, code, -32000 - m->tok % 90);
        CHECK(strncmp(t, "fail:", 5) || !strcmp(t, b), "wrong-result", "request %d: error message '%s'", m->tok, t);
        CHECK(T[m->tok].runs == 1, "not-run", "request %d was answered, its tool ran %d times", m->tok, T[m->tok].runs);
        break; }
    case K_BADPAR: CHECK(code == MCP_ERROR_INVALID_PARAMS, "wrong-result", "request %d with bad parameters got %d", m->tok, code); break;
    case K_READ: case K_TEMPL:
        CHECK(res, mode == MODE_AUTH ? "refused" : "wrong-result", "request %d (%s) got error %d", m->tok, m->uri, code);
        check_items(m, j_get(res, "contents"), m->kind == K_READ ? "C" : "T", m->uri, strchr(m->uri, '2') ? 2 : 1);
        break;
    case K_NOTFOUND: CHECK(code == MCP_ERROR_RESOURCE_NOT_FOUND, "wrong-result", "request %d for a missing resource got %d", m->tok, code); break;
    case K_TOOLS: CHECK(res, "wrong-result", "list request %d got error %d", m->tok, code); check_list(m, j_get(res, "tools"), "name", ntools); break;
    case K_RES: CHECK(res, "wrong-result", "list request %d got error %d", m->tok, code); check_list(m, j_get(res, "resources"), "uri", nres); break;
    case K_TEMPLS: CHECK(res, "wrong-result", "list request %d got error %d", m->tok, code); check_list(m, j_get(res, "resourceTemplates"), "uriTemplate", ntempl); break;
    case K_UNKNOWN: CHECK(code == MCP_ERROR_METHOD_NOT_FOUND, "wrong-result", "unknown method of request %d got %d", m->tok, code); break;
    case K_PERF: CHECK(res, "wrong-result", "metrics request %d got error %d", m->tok, code); break;
    default: break;
    }
}
static void check_one(struct msg *g, J *r, int lenient) {
    J *id = j_get(r, "id");
    CHECK(r->t == 'o' && id && (id->t == 'd' || id->t == 'n'), "malformed", "a response without id");
    u64 n = id->t == 'd' ? (u64)id->n : 0;
    struct mem *m = 0;
    for (int i = 0; i < g->n && !m; i++) if (g->m[i].isreq && g->m[i].id == n) m = &g->m[i];
    if (!m) for (int i = 0; i < g->n && !m; i++) if (g->m[i].kind == K_INVALID && !g->m[i].answered) m = &g->m[i];
    if (!m && lenient && n == 0) { CHECK(err_ok(j_get(r, "error")), "malformed", "a response for no request"); return; }
    CHECK(m, "foreign-id", "a response with id %llu, which the message does not contain", (unsigned long long)n);
    CHECK(!m->answered, "answered-twice", "request %d was answered twice", m->tok);
    m->answered = 1;
    if (m->kind == K_INVALID) { CHECK(err_ok(j_get(r, "error")) && !j_get(r, "result"), "malformed", "an invalid member got no error response"); return; }
    check_resp(m, r, lenient);
}
static void check_answer(struct msg *g, char *resp, int err, int lenient, int refused) {
    int want = 0;
    for (int i = 0; i < g->n; i++) want += g->m[i].isreq || g->m[i].kind == K_INVALID;
    if (refused && !resp && err) {
        for (int i = 0; i < g->n; i++) CHECK(!T[g->m[i].tok].runs, "refused-run", "a refused message was processed");
        return;
    }
    if (!resp) {
        CHECK(lenient || g->whole_bad == 0, "no-response", "unparsable input got no response (code %d)", err);
        CHECK(lenient || want == 0, "no-response", "a message with %d requests got no response (code %d): %.80s", want, err, g->txt);
        return;
    }
    J *j = j_parse(resp);
    CHECK(j, "malformed", "the response is not JSON: %.200s", resp);
    if (g->whole_bad) {
        J *x = j->t == 'a' && j->cnt == 1 ? j->v[0] : j;
        CHECK(x->t == 'o' && err_ok(j_get(x, "error")) && !j_get(x, "result"), "malformed", "unparsable input was answered with %.100s", resp);
        j_free(j);
        return;
    }
    if (!lenient) CHECK(want > 0, "unexpected", "a message without requests was answered: %.100s", resp);
    if (j->t == 'a') {
        CHECK(g->batch, "malformed", "a single request was answered with an array");
        for (int i = 0; i < j->cnt; i++) check_one(g, j->v[i], lenient);
    } else {
        CHECK(!g->batch || lenient || g->n == 1 || want == 1, "malformed", "a batch was answered with a single response: %.100s", resp);
        check_one(g, j, lenient);
    }
    if (!lenient) for (int i = 0; i < g->n; i++) {
        struct mem *m = &g->m[i];
        CHECK(m->answered || !(m->isreq || m->kind == K_INVALID), "unanswered", "member %d (kind %d) of a message with %d members was not answered: %.200s", i, m->kind, g->n, resp);
    }
    j_free(j);
}
static void one_message(int lenient_ok) {
    struct msg g;
    gen_msg(&g);
    if (tr_stopped) { free(g.txt); return; }
    u64 begin = sim_now();
    int after_stop = stop_end != 0, err = 0;
    u64 fails = sim_alloc_failed();
    in_cb++;
    char *data = malloc(g.len + 1);
    int term = W(6) == 1;
    memcpy(data, g.txt, g.len + (size_t)term);
    data = realloc(data, g.len + (size_t)term);
    if (after_stop) for (int i = 0; i < g.n; i++) T[g.m[i].tok].may = 0;
    sim_log("message %.300s", g.txt);
    char *resp = cb(cb_ud, data, g.len + (size_t)term, &err);
    sim_log("response %.300s", resp ? resp : "(none)");
    in_cb--;
    last_cb = sim_now();
    free(data);
    int lenient = lenient_ok && sim_alloc_failed() != fails;
    (void)begin;
    check_answer(&g, resp, err, lenient, stop_begin != 0);
    if (after_stop) CHECK(!resp || err, "after-stop", "a message handed in after stop returned was answered");
    sim_mark_nontrivial();
    sim_state((u64)g.n << 8 | (u64)g.m[0].kind << 2 | (u64)(resp != 0) << 1 | (u64)lenient);
    if (g.batch) sim_probe("batch");
    if (g.batch && !resp) sim_probe("silent batch");
    if (lenient) sim_probe(resp ? "answer under failing allocation" : "no answer under failing allocation");
    if (stop_begin && !stop_end && resp) sim_probe("answered during stop");
    free(resp);
    free(g.txt);
}
static int quota, lenient_ok;
static void caller(void *a) {
    (void)a;
    int n = (int)WR(1, (u32)quota);
    for (int i = 0; i < n; i++) {
        one_message(lenient_ok);
        if (W(4) == 1) sim_sleep_ns(WR(1, 60) * MS);
    }
}
static int make_server(void) {
    mcp_server_config_t cfg = {0};
    mcp_server_capabilities_t cap = {0};
    cfg.name = "sim"; cfg.version = "1"; cfg.description = C(2) ? "d" : 0;
    cfg.thread_pool_size = CR(1, 2); cfg.task_queue_size = 8;
    cfg.cache_capacity = CR(1, 6);
    cfg.graceful_shutdown_timeout_ms = grace;
    if (mode == MODE_AUTH) cfg.api_key = key;
    cap.resources_supported = true; cap.tools_supported = true;
    char *warm[2] = {"res://thing/1", "res://thing/2"};
    if (C(4) == 1 && mode != MODE_OOM) { cfg.prewarm_resource_uris = warm; cfg.prewarm_count = 2; }
    srv = mcp_server_create(&cfg, &cap);
    if (!srv) return 0;
    int ok = 1;
    for (int i = 0; i < ntools; i++) {
        char n[30], d[30], p[8];
        snprintf(n, sizeof n, "tool-%d", i); snprintf(d, sizeof d, "about %d", i);
        mcp_tool_t *t = mcp_tool_create(n, d);
        for (int k = 0; t && k < i; k++) { snprintf(p, sizeof p, "p%d", k); if (mcp_tool_add_param(t, p, "string", k & 1 ? "desc" : 0, k & 1)) ok = 0; }
        if (!t || mcp_server_add_tool(srv, t)) ok = 0;
        mcp_tool_free(t);
    }
    for (int i = 0; i < nres; i++) {
        char n[30], d[30];
        snprintf(n, sizeof n, "res://r-%d", i); snprintf(d, sizeof d, "about %d", i);
        mcp_resource_t *t = mcp_resource_create(n, "n", 0, d);
        if (!t || mcp_server_add_resource(srv, t)) ok = 0;
        mcp_resource_free(t);
    }
    for (int i = 0; i < ntempl; i++) {
        char n[30], d[30];
        snprintf(n, sizeof n, "t://{x}/r-%d", i); snprintf(d, sizeof d, "about %d", i);
        mcp_resource_template_t *t = mcp_resource_template_create(n, "n", "m", d);
        if (!t || mcp_server_add_resource_template(srv, t)) ok = 0;
        mcp_resource_template_free(t);
    }
    mcp_server_set_tool_handler(srv, on_tool, &mode);
    mcp_server_set_resource_handler(srv, on_res, &nres);
    if (mcp_server_register_template_handler(srv, "tmpl://{id}/a", on_templ, &ntempl)) ok = 0;
    if (mcp_server_register_template_handler(srv, "item:{id:int}", on_templ, &ntempl)) ok = 0;
    return ok;
}
static void setup(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    memset(T, 0, sizeof T); ntok = 0; in_cb = 0; tr_stopped = 0; stop_begin = stop_end = last_cb = 0; res_runs = 0; lenient_ok = 0; srv = 0; cb = 0;
    grace = CR(1, 5) * 1000;
    ntools = (int)C(5); nres = (int)C(4); ntempl = (int)C(3);
    nthr = (int)CR(1, NT);
    tr_wait = (int)C(2);
    quota = 6;
    static const char *const keys[] = {"k", "secret-key-0123456789", "TEST_API_KEY_123", "aa", "a b c", "0123456789012345678901234567890123456789012345678901234567890123456789"};
    strcpy(key, keys[C(6)]);
    memset(&tr, 0, sizeof tr);
    tr.type = MCP_TRANSPORT_TYPE_SERVER;
    tr.server.start = tr_start; tr.server.stop = tr_stop;
}
static void run_all(void) {
    setup();
    if (!make_server()) sim_fail("setup", "the server could not be set up");
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the server could not be started");
    int t[NT], early = (int)C(3) == 1;
    for (int i = 0; i < nthr; i++) t[i] = sim_spawn(caller, 0);
    if (early) sim_sleep_ns(WR(0, 400) * MS);
    else for (int i = 0; i < nthr; i++) sim_join(t[i]);
    stop_begin = sim_now();
    u64 in0 = stop_begin;
    if (in_cb) sim_probe("stop with requests in progress");
    int r = mcp_server_stop(srv);
    stop_end = sim_now();
    CHECK(r == 0, "stop", "stop failed");
    /* handlers of one batch sleep at most 80 ms each */
    u64 lim = grace * MS + (tr_wait ? (u64)MAXM * 80 * MS : 0) + 500 * MS + sim_injected_since(in0);
    CHECK(stop_end - stop_begin <= lim, "stop-slow", "stop took %llu ms, grace %u ms", (unsigned long long)((stop_end - stop_begin) / MS), grace);
    /* with nothing left to wait for, stop does not use up the grace period */
    u64 idle = last_cb > stop_begin ? last_cb : stop_begin;
    CHECK(in_cb || stop_end <= idle + 1 * SEC + sim_injected_since(in0), "stop-slow", "stop returned %llu ms after the last request was done", (unsigned long long)((stop_end - idle) / MS));
    if (early) for (int i = 0; i < nthr; i++) sim_join(t[i]);
    if (!tr_wait && W(2)) one_message(0);
    mcp_server_destroy(srv);
}
static void run_resp(void) {
    mode = MODE_RESP;
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP));
    sim_limit(4000 * SEC, 6000000);
    run_all();
}
HARNESS(server_resp, "P08", "server", run_resp,
        "server create/start/stop/destroy, transport callback, message parsing, dispatch, handlers, template routing, resource cache, JSON reader and writer, arena, pools",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, clock, memory allocator",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one message was handed to the server", 1)
MEMORY_HARNESS(server_resp_mem, "memory-server", run_resp,
        "server create/start/stop/destroy, transport callback, message parsing, dispatch, handlers, template routing, resource cache, JSON reader and writer, arena, pools",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, clock, memory allocator", 3)

/* ---- P09 --------------------------------------------------------------------------- */
static const char *const tool_pat[][3] = {{"echo", 0, 0}, {"mul*", "iserr", 0}, {"*", 0, 0}, {"", 0, 0}, {"ech", "echoo", "echoo*"}, {0, 0, 0}, {"fail", "ech*", 0}, {"none", "iserr", "echo"}};
static const char *const res_pat[][3] = {{"res://thing/1", 0, 0}, {"res://*", 0, 0}, {"*", 0, 0}, {"tmpl://*", 0, 0}, {"res://thing/", "item:", 0}, {0, 0, 0}, {"item:3*", "res://thing/4", 0}, {"none", "item:4*", "res://*"}};
static int wmatch(const char *p, const char *s) {
    if (!*p) return !*s;
    if (*p == '*') { for (;; s++) { if (wmatch(p + 1, s)) return 1; if (!*s) return 0; } }
    return *p == *s && wmatch(p + 1, s + 1);
}
static void limited(void *a) {
    (void)a;
    if (mcp_arena_init_current_thread(4096)) sim_inconclusive("no arena");
    int n = (int)WR(1, 8);
    for (int i = 0; i < n; i++) {
        struct msg g;
        memset(&g, 0, sizeof g);
        gen_mem(&g, &g.m[0], WR(1, 1000));
        struct mem *m = &g.m[0];
        if (m->kind != K_CALL && m->kind != K_READ && m->kind != K_TEMPL) continue;
        m->cred = CR_NONE;
        g.n = 1;
        int tp = (int)W(8), rp = (int)W(8), ok = 0, expired = W(4) == 1;
        mcp_auth_context_t c = {0};
        char *at[3], *ar[3];
        c.type = MCP_AUTH_API_KEY; c.identifier = "limited";
        u64 w0 = sim_wall() / SEC;
        c.expiry = expired ? (time_t)(w0 - WR(1, 1000)) : W(2) ? (time_t)(w0 + 100000) : 0;
        for (int k = 0; k < 3; k++) { at[k] = (char *)tool_pat[tp][k]; ar[k] = (char *)res_pat[rp][k]; if (at[k]) c.allowed_tools_count = (size_t)k + 1; if (ar[k]) c.allowed_resources_count = (size_t)k + 1; }
        c.allowed_tools = at; c.allowed_resources = ar;
        for (int k = 0; k < 3; k++) { const char *p = m->kind == K_CALL ? at[k] : ar[k]; if (p && wmatch(p, m->kind == K_CALL ? m->tool : m->uri)) ok = 1; }
        if (expired) ok = 0;
        T[m->tok].may = ok && m->kind == K_CALL;
        m->served = ok;
        char par[1200];
        if (m->kind == K_CALL) snprintf(par, sizeof par, "{\"name\":\"%s\",\"arguments\":{\"a\":\"%s\"}}", m->tool, m->jarg);
        else snprintf(par, sizeof par, "{\"uri\":\"%s\"}", m->uri);
        mcp_request_t rq = {0};
        rq.id = m->id; rq.method = m->kind == K_CALL ? "call_tool" : "read_resource"; rq.params = par;
        int err = 0;
        char *resp = handle_request(srv, 0, &rq, &c, &err);
        sim_log("limited %s %s tools %d res %d ok %d -> %.80s", rq.method, m->kind == K_CALL ? m->tool : m->uri, tp, rp, ok, resp ? resp : "(none)");
        CHECK(resp, "no-response", "a limited caller's request got no response (code %d)", err);
        check_answer(&g, resp, err, 0, 0);
        sim_probe(ok ? "limited caller served" : "limited caller refused");
        free(resp);
        mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}
static void run_auth(void) {
    mode = MODE_AUTH;
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP));
    sim_limit(4000 * SEC, 6000000);
    setup();
    if (!make_server()) sim_fail("setup", "the server could not be set up");
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the server could not be started");
    int t[NT], l[2], nl = (int)C(3);
    for (int i = 0; i < nthr; i++) t[i] = sim_spawn(caller, 0);
    for (int i = 0; i < nl; i++) l[i] = sim_spawn(limited, 0);
    for (int i = 0; i < nthr; i++) sim_join(t[i]);
    for (int i = 0; i < nl; i++) sim_join(l[i]);
    mcp_server_destroy(srv);
}
HARNESS(server_auth, "P09", "server-auth", run_auth,
        "server, transport callback, message parsing, dispatch, authentication, access checks, handlers, template routing, resource cache, JSON reader and writer",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, clock, memory allocator",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one message was handed to the server", 1)
MEMORY_HARNESS(server_auth_mem, "memory-server-auth", run_auth,
        "server, transport callback, message parsing, dispatch, authentication, access checks, handlers, template routing, resource cache, JSON reader and writer",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, clock, memory allocator", 2)

/* ---- P22 --------------------------------------------------------------------------- */
static void run_oom(void) {
    mode = MODE_OOM;
    sim_configure(F(DK_OOM) | F(DK_STALL));
    sim_limit(4000 * SEC, 6000000);
    setup();
    grace = 1000;
    if (nthr > 3) nthr = 3;
    tr_wait = 1;
    static const u32 rates[] = {5, 20, 60, 200, 1000};
    u32 rate = rates[C(5)];
    /* creating and destroying */
    for (int i = (int)C(3); i >= 0; i--) {
        sim_set_rate(DK_OOM, i || C(2) ? rate : 0);
        u64 f = sim_alloc_failed();
        int ok = make_server();
        if (!ok) { CHECK(sim_alloc_failed() != f, "setup", "the server could not be set up though no allocation failed"); sim_probe(srv ? "half set-up server destroyed" : "creation failed"); }
        if (ok && !i) break;
        if (W(2)) sim_set_rate(DK_OOM, 0);
        mcp_server_destroy(srv);
        srv = 0;
    }
    if (!srv) { sim_set_rate(DK_OOM, 0); CHECK(make_server(), "setup", "the server could not be set up after allocations succeed again"); }
    sim_set_rate(DK_OOM, 0);
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the server could not be started");
    sim_set_rate(DK_OOM, rate);
    lenient_ok = 1;
    int t[NT];
    for (int i = 0; i < nthr; i++) t[i] = sim_spawn(caller, 0);
    for (int i = 0; i < nthr; i++) sim_join(t[i]);
    for (int i = (int)W(4); i > 0; i--) one_message(1);
    sim_set_rate(DK_OOM, 0);
    lenient_ok = 0;
    for (int i = (int)WR(1, 5); i > 0; i--) one_message(0);
    quota = 3;
    for (int i = 0; i < nthr; i++) t[i] = sim_spawn(caller, 0);
    for (int i = 0; i < nthr; i++) sim_join(t[i]);
    if (W(2)) sim_set_rate(DK_OOM, rate);
    mcp_server_destroy(srv);
}
HARNESS(server_oom, "P22", "server-oom", run_oom,
        "server create/start/stop/destroy, transport callback, message parsing, dispatch, handlers, template routing, resource cache, JSON reader and writer, arena, pools",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, memory allocator (fails on demand)",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one message was handed to the server", 1)

/* ---- P28: the same traffic over and over on the same threads ------------------------- */
#define NR 18
#define NG 5
static struct msg SG[3][NG];
static int sround, sdone, sgroups;
static int round_open(void *a) { return sround >= *(int *)a; }
static int round_done(void *a) { (void)a; return sdone == nthr; }
static void steady_caller(void *a) {
    int me = (int)(intptr_t)a;
    for (int r = 1; r <= NR; r++) {
        sim_wait_until(round_open, &r, NEVER);
        for (int k = 0; k < sgroups; k++) {
            struct msg *g = &SG[me][k];
            for (int i = 0; i < g->n; i++) { g->m[i].answered = 0; T[g->m[i].tok].runs = 0; }
            char *data = malloc(g->len + 1);
            memcpy(data, g->txt, g->len + 1);
            int err = 0;
            char *resp = cb(cb_ud, data, g->len, &err);
            free(data);
            check_answer(g, resp, err, 0, 0);
            free(resp);
        }
        sdone++;
    }
    int end = NR + 1;
    sim_wait_until(round_open, &end, NEVER);
}
static u64 memory_in_use(void) {
    u64 n = sim_heap_leaks_count(0);
    for (int c = 0; c < MCP_POOL_SIZE_COUNT; c++) {
        mcp_memory_pool_stats_t s;
        if (mcp_pool_get_stats((mcp_pool_size_class_t)c, &s)) n += s.allocated_blocks;
    }
    return n;
}
static void run_steady(void) {
    mode = C(3) == 1 ? MODE_AUTH : MODE_RESP;
    sim_oom_never();
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP));
    sim_limit(9000 * SEC, 12000000);
    setup();
    nthr = (int)CR(1, 3); sgroups = (int)CR(1, NG); sround = sdone = 0;
    if (!make_server()) sim_fail("setup", "the server could not be set up");
    CHECK(mcp_server_start(srv, &tr) == 0 && cb, "setup", "the server could not be started");
    for (int i = 0; i < nthr; i++) for (int k = 0; k < sgroups; k++) gen_msg(&SG[i][k]);
    int t[NT], up = 0;
    u64 first = 0, last = 0;
    for (int i = 0; i < nthr; i++) t[i] = sim_spawn(steady_caller, (void *)(intptr_t)i);
    for (int r = 1; r <= NR; r++) {
        sdone = 0; sround = r;
        sim_wait_until(round_done, 0, NEVER);
        u64 now = memory_in_use();
        if (now > last) { if (!up++) first = last; } else up = 0;
        last = now;
        sim_log("round %d: %llu blocks in use", r, (unsigned long long)now);
    }
    sround = NR + 1;
    CHECK(up < NR - 6, "memory-grows", "the same messages make the server's memory grow each time: %llu to %llu blocks in %d rounds", (unsigned long long)first, (unsigned long long)last, up);
    sim_mark_nontrivial();
    sim_state((u64)nthr << 8 | (u64)SG[0][0].m[0].kind << 2 | (u64)mode);
    for (int i = 0; i < nthr; i++) sim_join(t[i]);
    for (int i = 0; i < nthr; i++) for (int k = 0; k < sgroups; k++) free(SG[i][k].txt);
    mcp_server_stop(srv);
    mcp_server_destroy(srv);
}
HARNESS(server_steady, "P28", "server-steady", run_steady,
        "server create/start/stop/destroy, transport callback, message parsing, dispatch, handlers, template routing, resource cache, JSON reader and writer, arena, pools",
        "transport (threads of the harness call the server's message callback), tool and resource handlers, clock, memory allocator",
        "the same messages were handled eighteen times over on the same threads and the memory in use was compared", 2)
