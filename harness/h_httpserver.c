/* P25: HTTP server transport answering tool calls. */
#include "sim.h"
#include "lws_fake.h"
#include "mcp_http_transport.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include "jmini.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NQ 400
#define NA 6
enum { K_POST, K_GET, K_EMPTY, K_TOOLS, K_ROOT, K_404, K_OPTIONS, K_NONAME, K_LONG };
static struct rq {
    int kind, seen, err, pad, nargs, cut;
    char *body; size_t n;
    char an[NA][24], av[NA][40];
    char *resp;
} Q[NQ];
static int nq, up, stopping, oom, resets, nfault, answered, keep, gets;
static lpeer *streams[4];
static int nstream, nevent;

static char *text(int id, int pad, const char *key) {
    char *b = simh_malloc((size_t)pad + 100);
    int l = sprintf(b, "{\"%s\":%d,\"pad\":\"", key, id);
    for (int i = 0; i < pad; i++) b[l++] = text_byte((u32)i, (u32)pad, (u32)id, (char)('a' + (i * 5 + id) % 26));
    b[l++] = '"';
    b[l++] = '}';
    b[l] = 0;
    return b;
}
static char *cb(void *u, const void *d, size_t n, int *err) {
    (void)u;
    const char *s = d;
    int id = -1;
    *err = 0;
    CHECK(up, "late-callback", "the handler is called after the transport was stopped");
    CHECK(s[n] == 0, "unterminated", "a request of %u bytes is not terminated", (u32)n);
    if (!strncmp(s, "{\"rq\":", 6)) {
        CHECK(sscanf(s, "{\"rq\":%d,", &id) == 1 && id >= 0 && id < nq && Q[id].kind == K_POST, "request-mangled", "the handler got %.40s", s);
        CHECK(n == Q[id].n && !memcmp(s, Q[id].body, n), "request-mangled", "request %d reached the handler changed: %u bytes of %u: ...%.20s", id, (u32)n, (u32)Q[id].n, n > 20 ? s + n - 20 : s);
        CHECK(!Q[id].cut, "incomplete-request", "request %d reached the handler although its connection closed before it was complete", id);
    } else {
        sim_nofault_begin();
        J *j = j_parse(s), *p = j_get(j, "params"), *ar = j_get(p, "arguments");
        const char *nm = j_gets(p, "name"), *me = j_gets(j, "method");
        CHECK(j && p && nm && me && !strcmp(me, "call_tool") && sscanf(nm, "tool%d", &id) == 1 && id >= 0 && id < nq && Q[id].kind == K_GET, "request-mangled", "the handler got %.80s", s);
        CHECK((ar ? ar->cnt : 0) == Q[id].nargs, "request-mangled", "request %d has %d arguments, the handler got %d", id, Q[id].nargs, ar ? ar->cnt : 0);
        for (int i = 0; i < Q[id].nargs; i++) {
            const char *v = j_gets(ar, Q[id].an[i]);
            CHECK(v && !strcmp(v, Q[id].av[i]), "request-mangled", "request %d argument %s is %s, not %s", id, Q[id].an[i], v ? v : "missing", Q[id].av[i]);
        }
        j_free(j);
        sim_nofault_end();
    }
    CHECK(!Q[id].seen, "handled-twice", "request %d reached the handler twice", id);
    Q[id].seen = 1;
    if (W(4) == 1) sim_sleep_ns(WR(1, 80) * MS);
    if (Q[id].err) { *err = Q[id].err; return 0; }
    char *r = text(id, Q[id].pad, "answer");
    Q[id].resp = simh_strdup(r);
    return r;
}
struct wt { lpeer *p; int want; };
static int answered_p(void *a) { struct wt *w = a; return w->p->gone || (w->p->nresp >= w->want && w->p->resp[w->want - 1].done && lp_can_request(w->p)); }
static int done_p(void *a) { struct wt *w = a; return w->p->gone || (w->p->nresp >= w->want && w->p->resp[w->want - 1].done); }
static int connected_p(void *a) { lpeer *p = a; return p->gone || p->connected; }
static int gone_p(void *a) { return ((lpeer *)a)->gone; }

static int add(int kind) {
    int id = nq++;
    struct rq *q = &Q[id];
    memset(q, 0, sizeof *q);
    q->kind = kind;
    static const int errs[] = { -32600, -32602, -32601, -32603, -32700, -32000, -1 };
    if (W(6) == 1) q->err = errs[W(7)];
    q->pad = W(4) == 1 ? (int)WR(3900, 13000) : (int)W(300);
    return id;
}
static void judge(int id, struct lresp *r) {
    struct rq *q = &Q[id];
    switch (q->kind) {
    case K_POST: case K_GET:
        if (!q->seen) {
            CHECK(oom && r->code >= 400, "answered-unhandled", "request %d is answered with status %d but the handler never saw it", id, r->code);
            break;
        }
        if (q->err) {
            sim_nofault_begin();
            J *j = j_parse(r->body ? r->body : ""), *e = j_get(j, "error"), *c = j_get(e, "code");
            CHECK(r->code >= 400 && c && (int)c->n == q->err, "wrong-response", "request %d failed with %d but is answered with status %d: %.60s", id, q->err, r->code, r->body ? r->body : "");
            CHECK((q->err != -32600 && q->err != -32602) || r->code < 500, "wrong-response", "request %d was the client's mistake (%d) but is answered with status %d", id, q->err, r->code);
            j_free(j);
            sim_nofault_end();
        } else CHECK(r->code == 200 && r->body && r->len == strlen(q->resp) && !strcmp(r->body, q->resp), "wrong-response", "request %d is answered with status %d, %u bytes: %.60s", id, r->code, (u32)r->len, r->body ? r->body : "");
        answered++;
        if (q->kind == K_GET) gets++;
        break;
    case K_EMPTY: case K_NONAME: case K_LONG: CHECK(r->code >= 400 && r->code < 500, "wrong-response", "a bad request is answered with status %d", r->code); break;
    case K_404: CHECK(r->code == 404, "wrong-response", "an unknown path is answered with status %d", r->code); break;
    default: CHECK(r->code == 200, "wrong-response", "a request is answered with status %d", r->code);
    }
}
/* one request on a connection; 0 when the connection is of no further use */
static int ask(lpeer *p) {
    if (nq >= NQ) return 0;
    static const int kinds[] = { K_POST, K_POST, K_POST, K_POST, K_GET, K_GET, K_GET, K_EMPTY, K_TOOLS, K_ROOT, K_404, K_OPTIONS, K_NONAME, K_LONG };
    int id = add(kinds[W(14)]), close_after = W(6) == 1, cutoff = 0;
    struct rq *q = &Q[id];
    struct wt w = { p, p->nresp + 1 };
    char args[3000] = "";
    switch (q->kind) {
    case K_POST: {
        int pad = W(5) == 1 ? (int)WR(1000, 9000) : (int)W(200);
        q->body = text(id, pad, "rq");
        q->n = strlen(q->body);
        cutoff = W(12) == 1;
        if (cutoff) q->cut = 1;
        lp_request(p, LM_POST, "/call_tool", 0, q->n, close_after);
        size_t o = 0, stop_at = cutoff ? W((u32)q->n) : q->n;
        int frag = (int)W(3);
        while (o < stop_at) {
            size_t m = frag == 0 ? stop_at - o : frag == 1 ? 1 + W(20) : 1 + W(2000);
            if (m > stop_at - o) m = stop_at - o;
            if (m > 4096) m = 4096;
            lp_body(p, q->body + o, m);
            o += m;
            if (W(8) == 1) sim_sleep_ns(WR(1, 50) * MS);
        }
        if (cutoff) { sim_sleep_ns(W(100) * MS); lp_close(p); sim_probe("closed-within-body"); sim_wait_until(gone_p, p, 100 * SEC); return 0; }
        break;
    }
    case K_GET: case K_NONAME: {
        static const char *names[] = { "text", "name", "n", "session_id", "value_name", "x" };
        char tok[NA + 5][90];
        int nt = 0, mask = (int)W(64);
        for (int i = 0; i < NA; i++) if (mask >> i & 1) {
            static const char *odd[] = { "=", "x=1", "aGVsbG8=", "==", "100%", "%41", "%2541", "a%", "\xc3\xa9", "say \"hi\"", "c:\\dir", "a/../b", "?x", "@:,", "{}", "name=x", "param_x=y", "v%1f" };
            if (W(4) == 1) strcpy(q->av[q->nargs], odd[W(sizeof odd / sizeof *odd)]);
            else snprintf(q->av[q->nargs], 40, W(6) == 1 ? "" : W(3) ? "v%u" : "a%u b", W(1000));
            int all = (int)W(3) == 1;
            snprintf(q->an[q->nargs], 24, "%s", names[i]);
            char *o = tok[nt++];
            o += sprintf(o, "param_%s=", names[i]);
            for (char *c = q->av[q->nargs]; *c; c++) o += all || *c == ' ' || *c == '%' || *c == '"' || *c == '\\' || *c == '{' || *c == '}' || *c & 0x80 ? sprintf(o, "%%%02X", (unsigned char)*c) : sprintf(o, "%c", *c);
            q->nargs++;
        }
        if (q->kind == K_GET) sprintf(tok[nt++], "name=tool%d", id);
        if (W(3) == 1) sprintf(tok[nt++], "nickname=bob");
        if (W(6) == 1) sprintf(tok[nt++], "flag");
        if (W(6) == 1) sprintf(tok[nt++], "xparam_w=1");
        if (!nt) sprintf(tok[nt++], "surname=bob");
        for (int i = nt - 1; i > 0; i--) { int k = (int)W((u32)i + 1); char t[90]; memcpy(t, tok[i], 90); memcpy(tok[i], tok[k], 90); memcpy(tok[k], t, 90); }
        for (int i = 0; i < nt; i++) { if (i) strcat(args, "&"); strcat(args, tok[i]); }
        lp_request(p, LM_GET, "/call_tool", args, 0, close_after);
        break;
    }
    case K_LONG: sprintf(args, "name=tool%d&param_x=", id); memset(args + strlen(args), 'y', 2000); lp_request(p, LM_GET, "/call_tool", args, 0, close_after); break;
    case K_EMPTY: lp_request(p, LM_POST, "/call_tool", 0, 0, close_after); break;
    case K_TOOLS: lp_request(p, LM_GET, "/tools", 0, 0, close_after); break;
    case K_ROOT: lp_request(p, LM_GET, "/", 0, 0, close_after); break;
    case K_404: lp_request(p, LM_GET, "/nothing/here", 0, 0, close_after); break;
    case K_OPTIONS: lp_request(p, LM_OPTIONS, "/call_tool", 0, 0, close_after); break;
    }
    if (W(20) == 1) { sim_sleep_ns(W(40) * MS); lp_close(p); sim_probe("closed-before-answer"); sim_wait_until(gone_p, p, 100 * SEC); return 0; }
    int ok = sim_wait_until(done_p, &w, 200 * SEC);
    if (stopping) return 0;
    CHECK(ok, "no-response", "request %d (kind %d) is not answered within 200 s", id, q->kind);
    if (p->nresp >= w.want && p->resp[w.want - 1].done) {
        judge(id, &p->resp[w.want - 1]);
        if (close_after || p->resp[w.want - 1].open_ended) {
            ok = sim_wait_until(gone_p, p, 100 * SEC);
            CHECK(ok || stopping, "not-closed", "a connection that is not to be kept alive stays open after the response to request %d", id);
            return 0;
        }
        ok = sim_wait_until(answered_p, &w, 100 * SEC);
        if (stopping) return 0;
        CHECK(!p->gone || oom || resets, "closed-by-server", "the server closed the connection after request %d (kind %d)", id, q->kind);
        if (p->gone) return 0;
        if (w.want > 1) keep = 1;
        return 1;
    }
    CHECK(oom || resets, "no-response", "the server closed the connection instead of answering request %d (kind %d)", id, q->kind);
    return 0;
}
static void client(void *a) {
    (void)a;
    int rounds = (int)WR(1, 4);
    while (rounds-- && !stopping) {
        lpeer *p = lp_connect();
        int ok = sim_wait_until(connected_p, p, 100 * SEC);
        if (stopping) return;
        CHECK(ok && p->connected, "not-accepted", "a connection is not accepted");
        int n = (int)WR(1, 6);
        while (n-- && !stopping && ask(p)) if (W(3) == 1) sim_sleep_ns(WR(1, 300) * MS);
        if (stopping) return;
        if (!p->gone && W(4)) lp_close(p);
    }
}
static void listener(void *a) {
    lpeer *p = lp_connect();
    streams[(int)(long)a] = p;
    lp_request(p, LM_GET, "/events", 0, 0, 0);
    sim_wait_until(connected_p, p, 100 * SEC);
    if (W(3) == 1) { sim_sleep_ns(WR(1, 500) * MS); lp_close(p); }
}
static void teller(void *a) {
    mcp_transport_t *t = a;
    int n = (int)W(6);
    while (n-- && !stopping) {
        char b[60];
        sprintf(b, "note %d", nevent++);
        mcp_http_transport_send_sse(t, "note", b, 0);
        sim_sleep_ns(WR(1, 200) * MS);
    }
}
static void stopper(void *a) { mcp_transport_stop(a); }

static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(9000 * SEC, 6000000);
    nfault = sim_configure(F(DK_STALL) | F(DK_SPURIOUS) | F(DK_OOM) | F(DK_RESET) | F(DK_CLOCK));
    resets = sim_get_rate(DK_RESET) != 0;
    oom = sim_get_rate(DK_OOM) != 0;
    sim_oom_scope(0);
    nq = up = stopping = answered = keep = gets = nstream = nevent = 0;
    lws_fake_idle_ms = C(3) == 1 ? CR(1, 3000) : 0;
    mcp_http_config_t k = { .host = "127.0.0.1", .port = 8000, .timeout_ms = 1000 };
    if (C(2)) { k.enable_cors = 1; k.cors_allow_origin = "*"; k.cors_allow_methods = "GET, POST, OPTIONS"; k.cors_allow_headers = "Content-Type"; k.cors_max_age = 86400; }
    u64 seq0 = sim_alloc_seq();
    mcp_transport_t *t = mcp_transport_http_create(&k);
    CHECK(t, "create-failed", "the transport cannot be created");
    up = 1;
    sim_nofault_begin();
    int r = mcp_transport_start(t, cb, 0, 0);
    sim_nofault_end();
    CHECK(!r, "start-failed", "the transport cannot be started");
    sim_oom_scope(1);
    int n = (int)WR(1, 6), tid[6], lt[4], tt = -1;
    nstream = C(2) ? 0 : (int)CR(1, 4);
    for (int i = 0; i < nstream; i++) lt[i] = sim_spawn(listener, (void *)(long)i);
    if (nstream) tt = sim_spawn(teller, t);
    for (int i = 0; i < n; i++) tid[i] = sim_spawn(client, 0);
    if (W(4) == 1) {
        sim_sleep_ns(WR(1, 1500) * MS);
        sim_probe("stopped-in-use");
    } else for (int i = 0; i < n; i++) { sim_join(tid[i]); tid[i] = -1; }
    stopping = 1;
    sim_oom_scope(0);
    for (int i = 0; i < nstream; i++) sim_join(lt[i]);
    if (tt >= 0) sim_join(tt);
    int s = sim_spawn(stopper, t);
    CHECK(sim_join_for(s, 300 * SEC), "stop-hangs", "stopping the transport does not end");
    up = 0;
    for (int i = 0; i < n; i++) if (tid[i] >= 0) CHECK(sim_join_for(tid[i], 900 * SEC), "client-stuck", "a client still waits after the transport was stopped");
    CHECK(!lws_fake_ctx_live, "context-left", "the library context survives the transport");
    mcp_transport_destroy(t);

    u32 leaks = sim_heap_leaks(seq0);
    CHECK(!leaks, "leak", "%u blocks of memory are left after the transport was destroyed", leaks);
    for (int i = 0; i < nq; i++) { if (Q[i].body) sim_free(Q[i].body); if (Q[i].resp) sim_free(Q[i].resp); }
    lp_free_all();
    if (answered) sim_mark_nontrivial();
    if (keep) sim_probe("connection-reused");
    if (gets) sim_probe("tool-call-by-query");
    if (nstream && nevent) sim_probe("events-meanwhile");
}
/* the library must be used by one thread at a time; apart because these runs end when it is not */
static void run_plain(void) { lws_fake_strict = 0; run(); }
static void run_threads(void) { lws_fake_strict = 1; run(); }
HARNESS(http_server, "P25", "http-server", run_plain,
        "HTTP server transport: request routing, body assembly, query parsing, responses, event stream clients, event thread, start and stop; JSON",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation",
        "a tool call was answered with what its own handler returned; states counted by the hash of the sequence of synchronisation operations and thread switches", 15)
HARNESS(http_server_threads, "P25", "http-server-threads", run_threads,
        "HTTP server transport: request routing, body assembly, query parsing, responses, event stream clients, event thread, start and stop; JSON",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time and complains when two threads use it at once), clock, threads, allocation",
        "a tool call was answered with what its own handler returned; states counted by the hash of the sequence of synchronisation operations and thread switches", 1)
MEMORY_HARNESS(http_server_mem, "memory-http-server", run_plain,
        "HTTP server transport: request routing, body assembly, query parsing, responses, event stream clients, event thread, start and stop; JSON",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation", 1)
