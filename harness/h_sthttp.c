/* P27: streamable HTTP server transport. */
#include "sim.h"
#include "lws_fake.h"
#include "mcp_sthttp_transport.h"
#include "mcp_transport.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NQ 400
#define NS 8
#define NM 200
enum { K_POST, K_LEGACY, K_EMPTY, K_OPTIONS, K_DELETE, K_DELETE_NONE, K_GET_PLAIN, K_404, K_TOOLS };
static struct rq { int kind, seen, err, pad, cut, bad; char *body, *resp; size_t n; } Q[NQ];
static struct msg { char *text; u64 from, to; int sender, failed, sent; } M[NM];
static struct st { lpeer *p; u64 open, closed; int bad, legacy, got[NM], n, hb; } S[NS];
static int nq, nm, ns, up, stopping, oom, resets, nfault, answered, keep, delivered, refused, legacy, validate, cors, beats;

static char *text(int id, int pad, const char *key) {
    char *b = simh_malloc((size_t)pad + 100);
    int l = sprintf(b, "{\"%s\":%d,\"pad\":\"", key, id);
    for (int i = 0; i < pad; i++) b[l++] = text_byte((u32)i, (u32)pad, (u32)id, (char)('a' + (i * 5 + id) % 26));
    b[l++] = '"';
    b[l++] = '}';
    b[l] = 0;
    return b;
}
static char *cb(void *u, const void *d, size_t n, int *err) {
    (void)u;
    const char *s = d;
    int id = -1;
    *err = 0;
    CHECK(up, "late-callback", "the handler is called after the transport was stopped");
    CHECK(s[n] == 0, "unterminated", "a request of %u bytes is not terminated", (u32)n);
    CHECK(sscanf(s, "{\"rq\":%d,", &id) == 1 && id >= 0 && id < nq && Q[id].body, "request-mangled", "the handler got %.40s", s);
    CHECK(n == Q[id].n && !memcmp(s, Q[id].body, n), "request-mangled", "request %d reached the handler changed: %u bytes of %u: ...%.20s", id, (u32)n, (u32)Q[id].n, n > 20 ? s + n - 20 : s);
    CHECK(!Q[id].cut, "incomplete-request", "request %d reached the handler although its connection closed before it was complete", id);
    CHECK(!Q[id].bad, "origin-let-in", "request %d reached the handler although its origin is not allowed", id);
    CHECK(!Q[id].seen, "handled-twice", "request %d reached the handler twice", id);
    Q[id].seen = 1;
    if (W(4) == 1) sim_sleep_ns(WR(1, 80) * MS);
    if (Q[id].err) { *err = Q[id].err; return W(2) ? simh_strdup("{}") : 0; }
    char *r = text(id, Q[id].pad, "answer");
    Q[id].resp = simh_strdup(r);
    return r;
}
struct wt { lpeer *p; int want; };
static int answered_p(void *a) { struct wt *w = a; return w->p->gone || (w->p->nresp >= w->want && w->p->resp[w->want - 1].done && lp_can_request(w->p)); }
static int done_p(void *a) { struct wt *w = a; return w->p->gone || (w->p->nresp >= w->want && w->p->resp[w->want - 1].done); }
static int connected_p(void *a) { lpeer *p = a; return p->gone || p->connected; }
static int gone_p(void *a) { return ((lpeer *)a)->gone; }

static const char *GOOD[] = { "http://localhost:3000", "http://localhost:8", "http://a.example", "https://b.example:81" };
static const char *BAD[] = { "http://evil.example", "http://a.example.evil", "http://a.exampl", "http://localhost", "https://b.example:811", "HTTP://A.EXAMPLE", "null", "http://b.example:81" };
/* 1: the origin is not allowed */
static int origin(lpeer *p) {
    int k = (int)W(4);
    if (k < 2) return 0;
    if (k == 2) { lp_header(p, LH_ORIGIN, GOOD[W(4)]); return 0; }
    if (W(4) == 1) {
        char l[700];
        size_t n = WR(200, 600);
        memset(l, 'o', n);
        memcpy(l, "http://", 7);
        l[n] = 0;
        lp_header(p, LH_ORIGIN, l);
        if (n >= 256) sim_probe("overlong-origin");
    } else lp_header(p, LH_ORIGIN, BAD[W(8)]);
    return validate;
}
static void judge(int id, struct lresp *r) {
    struct rq *q = &Q[id];
    if (q->bad) { CHECK(r->code >= 400 && r->code < 500, "origin-let-in", "request %d (kind %d) of an origin that is not allowed is answered with status %d", id, q->kind, r->code); refused++; return; }
    switch (q->kind) {
    case K_POST: case K_LEGACY:
        if (!q->seen) {
            CHECK(oom && r->code >= 400, "answered-unhandled", "request %d is answered with status %d but the handler never saw it", id, r->code);
            break;
        }
        if (q->err) CHECK(r->code >= 500, "wrong-response", "request %d failed but is answered with status %d: %.60s", id, r->code, r->body ? r->body : "");
        else CHECK(r->code == 200 && r->body && r->len == strlen(q->resp) && !strcmp(r->body, q->resp), "wrong-response", "request %d is answered with status %d, %u bytes: %.60s", id, r->code, (u32)r->len, r->body ? r->body : "");
        answered++;
        break;
    case K_EMPTY: case K_GET_PLAIN: case K_DELETE_NONE: CHECK(r->code >= 400 && r->code < 500, "wrong-response", "a bad request (kind %d) is answered with status %d", q->kind, r->code); break;
    case K_DELETE: CHECK(r->code >= 400 && r->code < 500, "wrong-response", "ending a session that does not exist is answered with status %d", r->code); break;
    case K_404: CHECK(r->code == 404, "wrong-response", "an unknown path is answered with status %d", r->code); break;
    default: CHECK(r->code == 200, "wrong-response", "a request (kind %d) is answered with status %d", q->kind, r->code);
    }
}
/* one request on a connection; 0 when the connection is of no further use */
static int ask(lpeer *p) {
    if (nq >= NQ) return 0;
    static const int kinds[] = { K_POST, K_POST, K_POST, K_POST, K_POST, K_LEGACY, K_EMPTY, K_OPTIONS, K_DELETE, K_DELETE_NONE, K_GET_PLAIN, K_404, K_TOOLS };
    int id = nq++, close_after = W(6) == 1;
    struct rq *q = &Q[id];
    memset(q, 0, sizeof *q);
    q->kind = kinds[W(13)];
    if (!legacy && (q->kind == K_LEGACY || q->kind == K_TOOLS)) q->kind = K_POST;
    if (W(6) == 1) q->err = -32000 - (int)W(700);
    q->pad = W(4) == 1 ? (int)WR(3900, 13000) : (int)W(300);
    struct wt w = { p, p->nresp + 1 };
    switch (q->kind) {
    case K_POST: case K_LEGACY: {
        int pad = W(5) == 1 ? (int)WR(1000, 9000) : W(4) == 1 ? (int)WR(480, 540) : (int)W(200);
        q->body = text(id, pad, "rq");
        q->n = strlen(q->body);
        q->cut = W(12) == 1;
        lp_request(p, LM_POST, q->kind == K_POST ? "/mcp" : "/call_tool", 0, q->n, close_after);
        q->bad = origin(p);
        if (W(2)) lp_header(p, LH_ACCEPT, "application/json, text/event-stream");
        if (W(3) == 1) lp_header(p, LH_SESSION, "0123456789abcdef0123456789abcdef");
        size_t o = 0, stop_at = q->cut ? W((u32)q->n) : q->n;
        int frag = (int)W(4);
        while (o < stop_at) {
            size_t m = frag == 0 ? stop_at - o : frag == 1 ? 1 + W(20) : frag == 2 ? 512 : 1 + W(2000);
            if (m > stop_at - o) m = stop_at - o;
            if (m > 4096) m = 4096;
            lp_body(p, q->body + o, m);
            o += m;
            if (W(8) == 1) sim_sleep_ns(WR(1, 50) * MS);
        }
        if (q->cut) { sim_sleep_ns(W(100) * MS); lp_close(p); sim_probe("closed-within-body"); sim_wait_until(gone_p, p, 100 * SEC); return 0; }
        break;
    }
    case K_EMPTY: lp_request(p, LM_POST, "/mcp", 0, 0, close_after); q->bad = origin(p); break;
    case K_OPTIONS: lp_request(p, LM_OPTIONS, "/mcp", 0, 0, close_after); break;
    case K_DELETE: case K_DELETE_NONE:
        lp_request(p, LM_DELETE, "/mcp", 0, 0, close_after);
        q->bad = origin(p);
        if (q->kind == K_DELETE) lp_header(p, LH_SESSION, W(2) ? "0123456789abcdef0123456789abcdef" : "x");
        break;
    case K_GET_PLAIN: lp_request(p, LM_GET, "/mcp", 0, 0, close_after); q->bad = origin(p); if (W(2)) lp_header(p, LH_ACCEPT, "text/html"); break;
    case K_404: lp_request(p, LM_GET, W(2) ? "/nothing" : "/mcp/", 0, 0, close_after); break;
    case K_TOOLS: lp_request(p, LM_GET, "/tools", 0, 0, close_after); break;
    }
    if (W(20) == 1) { sim_sleep_ns(W(40) * MS); lp_close(p); sim_probe("closed-before-answer"); sim_wait_until(gone_p, p, 100 * SEC); return 0; }
    int ok = sim_wait_until(done_p, &w, 200 * SEC);
    if (stopping) return 0;
    CHECK(ok, "no-response", "request %d (kind %d) is not answered within 200 s", id, q->kind);
    if (p->nresp >= w.want && p->resp[w.want - 1].done) {
        judge(id, &p->resp[w.want - 1]);
        if (close_after) {
            ok = sim_wait_until(gone_p, p, 100 * SEC);
            CHECK(ok || stopping, "not-closed", "a connection that is not to be kept alive stays open after the response to request %d", id);
            return 0;
        }
        ok = sim_wait_until(answered_p, &w, 100 * SEC);
        if (stopping) return 0;
        CHECK(!p->gone || oom || resets, "closed-by-server", "the server closed the connection after request %d (kind %d)", id, q->kind);
        if (p->gone) return 0;
        if (w.want > 1) keep = 1;
        return 1;
    }
    CHECK(oom || resets, "no-response", "the server closed the connection instead of answering request %d (kind %d)", id, q->kind);
    return 0;
}
static void client(void *a) {
    (void)a;
    int rounds = (int)WR(1, 4);
    while (rounds-- && !stopping) {
        lpeer *p = lp_connect();
        int ok = sim_wait_until(connected_p, p, 100 * SEC);
        if (stopping) return;
        CHECK(ok && p->connected, "not-accepted", "a connection is not accepted");
        int n = (int)WR(1, 6);
        while (n-- && !stopping && ask(p)) if (W(3) == 1) sim_sleep_ns(WR(1, 300) * MS);
        if (stopping) return;
        if (!p->gone && W(4)) lp_close(p);
    }
}
static int greeted_p(void *a) {
    lpeer *p = a;
    return p->gone || (p->nresp && (p->resp[0].done || (p->resp[0].body && strstr(p->resp[0].body, "\n\n"))));
}
static void listener(void *a) {
    int rounds = (int)WR(1, 3);
    (void)a;
    while (rounds-- && !stopping && ns < NS) {
        struct st *s = &S[ns++];
        memset(s, 0, sizeof *s);
        lpeer *p = s->p = lp_connect();
        s->legacy = legacy && W(3) == 1;
        lp_request(p, LM_GET, s->legacy ? "/events" : "/mcp", 0, 0, 0);
        lp_header(p, LH_ACCEPT, W(2) ? "text/event-stream" : "application/json, text/event-stream");
        s->bad = origin(p);
        if (W(4) == 1) lp_header(p, LH_SESSION, "0123456789abcdef0123456789abcdef");
        if (W(4) == 1) lp_header(p, LH_LAST_EVENT, "17");
        if (W(8) == 1) { sim_sleep_ns(W(60) * MS); s->closed = sim_now(); lp_close(p); continue; }
        int ok = sim_wait_until(greeted_p, p, 200 * SEC);
        if (stopping) return;
        CHECK(ok || oom, "no-response", "an event stream is not opened within 200 s");
        if (!ok) continue;
        if (p->gone) { CHECK(oom || resets, "no-response", "the connection is closed instead of opening an event stream"); continue; }
        if (s->bad) { CHECK(p->resp[0].code >= 400 && p->resp[0].code < 500 && p->resp[0].done, "origin-let-in", "an event stream of an origin that is not allowed is answered with status %d", p->resp[0].code); refused++; continue; }
        if (p->resp[0].done) { CHECK(oom && p->resp[0].code >= 500, "wrong-response", "an event stream is answered with status %d", p->resp[0].code); continue; }
        CHECK(p->resp[0].code == 200 && p->resp[0].open_ended, "wrong-response", "an event stream is answered with status %d and a length", p->resp[0].code);
        s->open = sim_now();
        if (beats && !nfault && W(2)) {
            sim_sleep_ns((u64)beats * MS + 4 * SEC + lws_fake_idle_ms * MS);
            if (stopping) return;
            CHECK(strstr(p->resp[0].body, "\n:") || !strncmp(p->resp[0].body, ":", 1), "no-heartbeat", "an open stream got no heartbeat in %d ms", beats + 4000);
            sim_probe("heartbeat");
        } else sim_sleep_ns(WR(1, 1500) * MS);
        if (stopping) return;
        if (W(3)) { s->closed = sim_now(); if (W(4)) lp_close(p); else lp_drop(p); sim_probe("stream-closed"); }
    }
}
static void teller(void *a) {
    mcp_transport_t *t = a;
    int n = (int)WR(1, 14), me = (int)sim_self();
    while (n-- && !stopping && nm < NM) {
        int k = nm++;
        int pad = W(5) == 1 ? (int)WR(3900, 9000) : (int)W(200);
        char *b = simh_malloc((size_t)pad + 60);
        int l = sprintf(b, "note %d ", k);
        for (int i = 0; i < pad; i++) { char x = text_byte((u32)i, (u32)pad, (u32)k, (char)('a' + (i + k) % 26)); b[l++] = x > 0 && W(40) == 1 ? '\n' : x; }
        b[l++] = '.';
        b[l] = 0;
        M[k] = (struct msg){ b, sim_now(), 0, me, 0, 0 };
        char *d = simh_malloc((size_t)l);            /* the message need not be terminated */
        memcpy(d, b, (size_t)l);
        M[k].failed = mcp_transport_sthttp_send_with_session(t, d, (size_t)l, 0) != 0;
        M[k].to = sim_now();
        M[k].sent = 1;
        sim_free(d);
        if (W(3)) sim_sleep_ns(WR(1, 200) * MS);
    }
}
/* what arrived on a stream */
static void read_stream(struct st *s) {
    lpeer *p = s->p;
    if (!p->nresp || !p->resp[0].open_ended || !p->resp[0].body) return;
    char *b = p->resp[0].body, *ev = simh_malloc(p->resp[0].len + 2), type[40] = "";
    size_t el = 0;
    int nd = 0, greeted = 0;
    while (*b) {
        char *e = strchr(b, '\n');
        CHECK(e, "stream-garbled", "a stream ends within a line: %.40s", b);
        size_t n = (size_t)(e - b);
        if (!n) {
            if (nd) {
                ev[el - 1] = 0;
                if (!strcmp(type, "connection") && !greeted) greeted = 1;
                else {
                    int k = -1;
                    CHECK(!strcmp(type, "message") && sscanf(ev, "note %d ", &k) == 1 && k >= 0 && k < nm && !strcmp(ev, M[k].text), "stream-garbled", "a stream carries something never sent: %s %.40s", type, ev);
                    for (int i = 0; i < s->n; i++) CHECK(s->got[i] != k, "sent-twice", "message %d arrived twice on a stream", k);
                    s->got[s->n++] = k;
                }
            }
            nd = 0; el = 0; type[0] = 0;
        } else if (!strncmp(b, "data: ", 6)) { memcpy(ev + el, b + 6, n - 6); el += n - 6; ev[el++] = '\n'; nd++; }
        else if (!strncmp(b, "event: ", 7) && n < 40) { memcpy(type, b + 7, n - 7); type[n - 7] = 0; }
        else if (b[0] == ':') s->hb++;
        else CHECK(!strncmp(b, "id: ", 4), "stream-garbled", "a stream carries a line of no kind: %.40s", b);
        b = e + 1;
    }
    sim_free(ev);
}
static int at(struct st *s, int k) { for (int i = 0; i < s->n; i++) if (s->got[i] == k) return i; return -1; }
static void judge_streams(u64 end) {
    for (int i = 0; i < ns; i++) {
        struct st *s = &S[i];
        CHECK(!s->bad || !s->p->nresp || s->p->resp[0].code >= 400, "origin-let-in", "an event stream was opened for an origin that is not allowed");
        if (s->bad) continue;
        read_stream(s);
        delivered += s->n;
        u64 till = s->closed ? s->closed : end;
        for (int k = 0; k < nm; k++)
            if (s->open && M[k].sent && M[k].from > s->open && M[k].to < till && !oom && !resets)
                CHECK(at(s, k) >= 0, "message-lost", "message %d, sent while a stream was open, did not arrive on it", k);
        for (int x = 0; x < s->n; x++) for (int y = x + 1; y < s->n; y++)
            CHECK(M[s->got[x]].from <= M[s->got[y]].to && (M[s->got[x]].sender != M[s->got[y]].sender || s->got[x] < s->got[y]), "reordered", "message %d arrived after message %d, which was sent later", s->got[y], s->got[x]);
        for (int j = 0; j < i; j++) for (int x = 0; x < s->n; x++) for (int y = x + 1; y < s->n; y++) {
            int a = at(&S[j], s->got[x]), b = at(&S[j], s->got[y]);
            CHECK(a < 0 || b < 0 || a < b, "reordered", "two streams got messages %d and %d in different order", s->got[x], s->got[y]);
        }
    }
}
static void stopper(void *a) { mcp_transport_stop(a); }

static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(9000 * SEC, 6000000);
    nfault = sim_configure(F(DK_STALL) | F(DK_SPURIOUS) | F(DK_OOM) | F(DK_RESET) | F(DK_CLOCK));
    resets = sim_get_rate(DK_RESET) != 0;
    oom = sim_get_rate(DK_OOM) != 0;
    sim_oom_scope(0);
    nq = nm = ns = up = stopping = answered = keep = delivered = refused = 0;
    lws_fake_idle_ms = C(3) == 1 ? CR(1, 3000) : 0;
    mcp_sthttp_config_t k = { .host = "127.0.0.1", .port = 8000 };
    k.enable_legacy_endpoints = legacy = (int)C(2);
    k.enable_sessions = C(2);
    validate = 0;
    if (C(3)) { k.validate_origin = true; k.allowed_origins = C(2) ? "http://localhost:*, http://a.example ,https://b.example:81" : "https://b.example:81,,http://a.example,\thttp://localhost:*,"; validate = 1; }
    k.enable_cors = cors = C(2);
    if (C(2)) { k.cors_allow_origin = "http://a.example"; k.cors_max_age = 60; }
    k.max_sse_clients = C(2) ? 0 : CR(1, 3);
    beats = 0;
    if (C(2)) { k.send_heartbeats = true; k.heartbeat_interval_ms = (u32)(beats = (int)CR(1, 5) * 1000); }
    u64 seq0 = sim_alloc_seq();
    mcp_transport_t *t = mcp_transport_sthttp_create(&k);
    CHECK(t, "create-failed", "the transport cannot be created");
    up = 1;
    sim_nofault_begin();
    int r = mcp_transport_start(t, cb, 0, 0);
    sim_nofault_end();
    CHECK(!r, "start-failed", "the transport cannot be started");
    sim_oom_scope(1);
    int n = (int)W(6), tid[6], nl = (int)W(5), lt[4], nt = (int)W(3), tt[2];
    for (int i = 0; i < nl; i++) lt[i] = sim_spawn(listener, 0);
    for (int i = 0; i < nt; i++) tt[i] = sim_spawn(teller, t);
    for (int i = 0; i < n; i++) tid[i] = sim_spawn(client, 0);
    int early = W(4) == 1;
    if (early) {
        if (W(3)) sim_sleep_ns(WR(1, 1500) * MS);
        sim_probe("stopped-in-use");
    } else {
        for (int i = 0; i < n; i++) { sim_join(tid[i]); tid[i] = -1; }
        for (int i = 0; i < nl; i++) { sim_join(lt[i]); lt[i] = -1; }
    }
    stopping = 1;
    for (int i = 0; i < nt; i++) sim_join(tt[i]);
    sim_oom_scope(0);
    u64 end = sim_now();
    int s = sim_spawn(stopper, t);
    CHECK(sim_join_for(s, sim_get_rate(DK_STALL) ? 300 * SEC : 20 * SEC + lws_fake_idle_ms * MS), "stop-hangs", "stopping the transport does not end");
    up = 0;
    for (int i = 0; i < n; i++) if (tid[i] >= 0) CHECK(sim_join_for(tid[i], 900 * SEC), "client-stuck", "a client still waits after the transport was stopped");
    for (int i = 0; i < nl; i++) if (lt[i] >= 0) CHECK(sim_join_for(lt[i], 900 * SEC), "client-stuck", "a listener still waits after the transport was stopped");
    CHECK(!lws_fake_ctx_live, "context-left", "the library context survives the transport");
    judge_streams(end);
    mcp_transport_destroy(t);

    u32 leaks = sim_heap_leaks(seq0);
    CHECK(!leaks, "leak", "%u blocks of memory are left after the transport was destroyed", leaks);
    for (int i = 0; i < nq; i++) { if (Q[i].body) sim_free(Q[i].body); if (Q[i].resp) sim_free(Q[i].resp); }
    for (int i = 0; i < nm; i++) sim_free(M[i].text);
    lp_free_all();
    if (answered || delivered) sim_mark_nontrivial();
    if (keep) sim_probe("connection-reused");
    if (delivered) sim_probe("messages-on-streams");
    if (refused) sim_probe("origin-refused");
    if (ns > 3) sim_probe("many-streams");
}
/* the library must be used by one thread at a time; apart because these runs end when it is not */
static void run_plain(void) { lws_fake_strict = 0; run(); }
static void run_threads(void) { lws_fake_strict = 1; run(); }
HARNESS(sthttp_server, "P27", "streamable-http-server", run_plain,
        "streamable HTTP server transport: request routing, body assembly, origin check, responses, event streams, heartbeats, event and cleanup threads, start and stop; session manager",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation",
        "a request was answered with what its own handler returned, or a message arrived on an event stream; states counted by the hash of the sequence of synchronisation operations and thread switches", 15)
HARNESS(sthttp_server_threads, "P27", "streamable-http-server-threads", run_threads,
        "streamable HTTP server transport: request routing, body assembly, origin check, responses, event streams, heartbeats, event and cleanup threads, start and stop; session manager",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time and complains when two threads use it at once), clock, threads, allocation",
        "a request was answered with what its own handler returned, or a message arrived on an event stream; states counted by the hash of the sequence of synchronisation operations and thread switches", 1)
MEMORY_HARNESS(sthttp_server_mem, "memory-streamable-http-server", run_plain,
        "streamable HTTP server transport: request routing, body assembly, origin check, responses, event streams, heartbeats, event and cleanup threads, start and stop; session manager",
        "libwebsockets (its service loop is a model that delivers one event of one connection at a time), clock, threads, allocation", 1)
