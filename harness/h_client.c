/* P05: calls of the client library over the TCP client transport. */
#include "sim.h"
#include "mcp_client.h"
#include "mcp_tcp_client_transport.h"
#include "mcp_transport.h"
#include "mcp_types.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <errno.h>

#define PORT 7200
#define NT 8             /* callers */
#define NR 400           /* requests */
#define NCONN 40
#define NRESP 1600
enum { K_REQ, K_RAW, K_TOOLS, K_TOOL, K_READ, K_RES, K_TEMPL };
static mcp_client_t *cl;
static mcp_transport_t *tr;
static u32 tmo;
static u64 maxlat;
/* requests: the token is the index */
static struct req { int kind, used, seen, conn, sent_n, single, ended; u64 id, first_sent; int first_conn, bad; } R[NR];
static int nreq;
static struct resp { int req, isErr, sent, code; } P[NRESP];
static int nresp;
/* list calls carry no token: the method decides, one such call at a time per method */
static struct conn { u64 dead_at; int h, dead, kill, nout, reading, part; struct { u64 due; char *txt; int resp; } out[200]; } S[NCONN];
static int nsc, want_up, over, quit, stopping, destroyed, nloss, connected, inject_loss;
static struct caller { int in_call, seen, q; } T[NT];
static int list_busy[8], list_req[8];
static int allow_silent, small_buf;

static void on_state(void *ud, mcp_connection_state_t st, int attempt) {
    (void)ud; (void)attempt;
    int c = st == MCP_CONNECTION_STATE_CONNECTED;
    sim_log("state %d", (int)st);
    CHECK(!destroyed, "late-callback", "a state was reported after the client was destroyed");
    if (connected && !c) {
        nloss++;
        if (!stopping && !inject_loss && nsc) CHECK(S[nsc - 1].kill || S[nsc - 1].dead, "given-up", "the connection was given up though nobody ended it");
    }
    connected = c;
}
/* ---- server ---------------------------------------------------------------- */
static int new_resp(int q, int isErr) {
    if (nresp >= NRESP) sim_inconclusive("too many responses");
    P[nresp] = (struct resp){q, isErr, 0, -32000 - (int)W(90)};
    return nresp++;
}
static char *body(int q, int p, u64 id) {
    struct req *r = &R[q];
    char *b = malloc(6000), big[4100] = "";
    if (W(20) == 1) { u32 n = WR(100, 4000); for (u32 i = 0; i < n; i++) big[i] = text_byte(i, n, n, 'x'); big[n] = 0; }
    if (P[p].isErr) snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"E%d.%d%s\"}}", (unsigned long long)id, P[p].code, q, p, big);
    else switch (r->kind) {
    case K_REQ: case K_RAW: snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"v\":\"V%d.%d%s\"}}", (unsigned long long)id, q, p, big); break;
    case K_TOOL: snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"content\":[{\"type\":\"text\",\"text\":\"V%d.%d%s\"}],\"isError\":false}}", (unsigned long long)id, q, p, big); break;
    case K_READ: snprintf(b, 6000, "{\"result\":{\"contents\":[{\"type\":\"text\",\"text\":\"V%d.%d%s\"}]},\"id\":%llu,\"jsonrpc\":\"2.0\"}", q, p, big, (unsigned long long)id); break;
    case K_TOOLS: snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"tools\":[{\"name\":\"V%d.%d%s\",\"description\":\"d\"}]}}", (unsigned long long)id, q, p, big); break;
    case K_RES: snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"resources\":[{\"uri\":\"V%d.%d%s\",\"name\":\"n\"}]}}", (unsigned long long)id, q, p, big); break;
    default: snprintf(b, 6000, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"resourceTemplates\":[{\"uriTemplate\":\"V%d.%d%s\",\"name\":\"n\"}]}}", (unsigned long long)id, q, p, big);
    }
    return b;
}
static void queue(struct conn *c, char *txt, int resp, u64 due) {
    if (c->nout >= 200) { free(txt); return; }
    c->out[c->nout].txt = txt; c->out[c->nout].resp = resp; c->out[c->nout].due = due;
    c->nout++;
}
static char *junk(u64 id) {
    char *b = malloc(300);
    unsigned long long i = (unsigned long long)id;
    switch (W(13)) {
    case 0: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"resu", i); break;
    case 1: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":%llu}", i); break;
    case 2: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":\"%llu\",\"result\":{\"v\":\"JUNK\"}}", i); break;
    case 3: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":%llu.5,\"result\":{\"v\":\"JUNK\"}}", i); break;
    case 4: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":-%llu,\"result\":{\"v\":\"JUNK\"}}", i); break;
    case 5: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"v\":\"JUNK\"}}", i + 100000 + W(64) * 4); break;
    case 6: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":0,\"result\":{\"v\":\"JUNK\"}}"); break;
    case 7: snprintf(b, 300, "[{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"v\":\"JUNK\"}}]", i); break;
    case 8: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"method\":\"notify\",\"params\":{\"id\":%llu}}", i); break;
    case 9: snprintf(b, 300, "\x01\x02 not json at all"); break;
    case 10: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":\"x\",\"message\":\"JUNK\"}}", i); break;
    case 11: snprintf(b, 300, "{\"jsonrpc\":\"2.0\",\"id\":null,\"error\":{\"code\":-32700,\"message\":\"JUNK\"}}"); break;
    default: snprintf(b, 300, "null"); break;
    }
    return b;
}
static void take(struct conn *c, char *b) {
    if (strstr(b, "\"ping\"")) return;
    char *p = strstr(b, "\"id\":"), *m = strstr(b, "\"method\":\"");
    CHECK(p && m, "bad-request", "the server got a message that is no request: %.60s", b);
    u64 id = strtoull(p + 5, 0, 10);
    int q = -1, kind = -1;
    m += 10;
    if (!strncmp(m, "list_tools\"", 11)) kind = K_TOOLS;
    else if (!strncmp(m, "list_resources\"", 15)) kind = K_RES;
    else if (!strncmp(m, "list_resource_templates\"", 24)) kind = K_TEMPL;
    if (kind >= 0) { q = list_req[kind]; CHECK(list_busy[kind], "bad-request", "the server got a list request nobody makes"); }
    else {
        char *t = strstr(b, "tok");
        CHECK(t, "bad-request", "the server got a request without its parameters: %.80s", b);
        q = atoi(t + 3);
    }
    CHECK(q >= 0 && q < nreq, "bad-request", "the server got request %d, there are %d", q, nreq);
    struct req *r = &R[q];
    CHECK(!r->seen, "sent-twice", "request %d arrived twice at the server", q);
    r->seen = 1; r->id = id; r->conn = (int)(c - S);
    T[r->used - 1].seen = 1;
    sim_log("server %d: request %d id %llu", r->conn, q, (unsigned long long)id);
    u64 d = 0;
    switch (W(5)) { case 0: d = WR(1, 20) * MS; break; case 1: d = WR(1, 400) * MS; break; case 2: d = tmo * MS * WR(80, 120) / 100; break; default: break; }
    u64 at = sim_now() + d;
    if (W(10) == 1) { queue(c, junk(id), -1, at); sim_probe("junk response"); }
    switch (allow_silent ? W(12) : 2 + W(10)) {
    case 0: r->bad = 1; return;                                                             /* never answered */
    case 1: r->bad = 1; at += (tmo * WR(1, 3)) * MS; sim_probe("late response"); break;   /* too late */
    case 2: {
        int k = new_resp(q, W(2)), n = new_resp(q, W(2));
        queue(c, body(q, k, id), k, at);
        queue(c, body(q, n, id), n, at + WR(0, 300) * MS);
        sim_probe("duplicate response");
        return; }
    default: break;
    }
    r->single = 1;
    int k = new_resp(q, W(5) == 1);
    queue(c, body(q, k, id), k, at);
}
static int sendall(struct conn *c, const char *b, u32 l) {
    u32 o = 0;
    while (o < l && !c->kill && !over) {
        u32 m = W(4) ? l - o : 1 + W(l - o);
        int r = hnet_send_for(c->h, b + o, m, 300 * MS);
        if (r < (int)m && errno != EAGAIN) return 0;
        o += (u32)r;
        if (W(5) == 1) sim_sleep_ns(WR(1, 10) * MS);
    }
    return o == l;
}
static void writer(void *a) {
    struct conn *c = a;
    while (!over && !c->dead && !c->kill) {
        int due[200], n = 0;
        for (int i = 0; i < c->nout; i++) if (c->out[i].due <= sim_now()) due[n++] = i;
        if (!n) { sim_sleep_ns(WR(1, 15) * MS); continue; }
        int i = due[W((u32)n)], p = c->out[i].resp;
        char *t = c->out[i].txt;
        c->out[i] = c->out[--c->nout];
        u32 l = (u32)strlen(t), nl = htonl(l);
        char *f = malloc(l + 4);
        memcpy(f, &nl, 4); memcpy(f + 4, t, l);
        if (p >= 0) P[p].sent = 1;
        sim_log("server %d sends %.50s", (int)(c - S), t);
        int ok = sendall(c, f, l + 4);
        if (p >= 0 && ok) {
            struct req *r = &R[P[p].req];
            if (!r->sent_n++) { r->first_sent = sim_now(); r->first_conn = (int)(c - S); }
        }
        free(f); free(t);
        if (!ok) break;
    }
    while (c->nout) free(c->out[--c->nout].txt);
}
static void srv_conn(void *a) {
    struct conn *c = a;
    int w = sim_spawn(writer, c);
    char *b = malloc(70000);
    u32 have = 0;
    while (!over && !c->kill) {
        if (W(30) == 1) sim_sleep_ns(WR(1, 200) * MS);
        long r = hnet_recv(c->h, b + have, W(3) ? 60000 - have : 1 + W(100), 25 * MS);
        if (r == -2) continue;
        if (r <= 0) break;
        have += (u32)r;
        for (;;) {
            if (have < 4) break;
            u32 l; memcpy(&l, b, 4); l = ntohl(l);
            CHECK(l > 0 && l < 50000, "bad-request", "the server got a frame with length %u", l);
            if (have < l + 4) break;
            char *m = malloc(l + 1);
            memcpy(m, b + 4, l); m[l] = 0;
            take(c, m);
            free(m);
            memmove(b, b + 4 + l, have - 4 - l);
            have -= 4 + l;
        }
    }
    c->dead = 1;
    sim_join(w);
    if (c->kill == 2) hnet_reset(c->h); else hnet_close(c->h);
    c->dead_at = sim_now();
    free(b);
}
static void acceptor(void *a) {
    (void)a;
    int tid[NCONN], l = -1;
    while (!over) {
        if (want_up && l < 0) l = hnet_listen(PORT);
        if (!want_up && l >= 0) { hnet_close(l); l = -1; }
        if (l < 0) { sim_sleep_ns(5 * MS); continue; }
        int h = hnet_accept(l, 10 * MS);
        if (h < 0) continue;
        if (nsc >= NCONN) { hnet_close(h); sim_inconclusive("too many connections"); }
        struct conn *c = &S[nsc];
        memset(c, 0, sizeof *c);
        c->h = h;
        nsc++;
        tid[nsc - 1] = sim_spawn(srv_conn, c);
    }
    if (l >= 0) hnet_close(l);
    for (int i = 0; i < nsc; i++) sim_join(tid[i]);
}
/* ---- callers ---------------------------------------------------------------- */
static int new_req(int t, int kind) {
    if (nreq >= NR) sim_inconclusive("too many requests");
    memset(&R[nreq], 0, sizeof R[0]);
    R[nreq].kind = kind; R[nreq].used = t + 1;
    T[t].q = nreq;
    return nreq++;
}
/* what is a call told by the text it got: V<request>.<response> or E... */
static void origin(int q, const char *s, char k, int code) {
    int a = -1, p = -1;
    char c = 0;
    CHECK(s && sscanf(s, "%c%d.%d", &c, &a, &p) == 3 && c == k && p >= 0 && p < nresp && P[p].sent, "invented-response", "request %d was given a response nobody sent: %.60s", q, s ? s : "(none)");
    CHECK(a == q && P[p].req == q, "wrong-response", "request %d was given the response to request %d", q, a);
    CHECK(P[p].isErr == (k == 'E'), "wrong-response", "request %d: kind of response", q);
    if (k == 'E') CHECK(P[p].code == code, "wrong-response", "request %d got error code %d, %d was sent", q, code, P[p].code);
}
struct ctx { u64 t0, t1, inj; int loss, conn; };
static void begin(struct ctx *x) { x->t0 = sim_now(); x->loss = nloss; x->conn = connected; x->inj = sim_injected(); }
static int excused(struct ctx *x, u64 t0) {
    if (nloss != x->loss || !connected || !x->conn || stopping) return 1;
    return tmo && sim_now() - t0 + 2 * MS >= tmo * MS;
}
static int p_lost(void *a) { return nloss != *(int *)a || !connected || stopping; }
/* one request ended without a response of the server, begun at t0 */
static void failed(int q, struct ctx *x, u64 t0) {
    struct req *r = &R[q];
    int ex = excused(x, t0);
    u64 e = sim_now();
    /* a call may notice the loss of the connection just before it is reported */
    for (int i = 0; i < 20 && !ex && sim_now() - e < 2 * SEC + 2 * sim_injected_since(e); i++) ex = sim_wait_until(p_lost, &x->loss, 500 * MS);
    CHECK(ex, "failed-early", "request %d failed after %.0f ms though connected all the time, the time-out is %u ms", q, (double)(e - t0) / 1e6, tmo);
    if (nloss == x->loss && connected && x->conn && !stopping && r->sent_n && tmo) {
        u64 slack = 100 * MS + maxlat + 2 * sim_injected_since(t0);
        CHECK(r->first_sent + slack > t0 + tmo * MS, "response-lost", "request %d timed out though its response was sent %.0f ms before the time-out", q, (double)(t0 + tmo * MS - r->first_sent) / 1e6);
        sim_probe("response close to the time-out");
    }
    sim_probe(stopping ? "failed by destroy" : nloss != x->loss ? "failed by loss" : !x->conn ? "failed, not connected" : "timed out");
}
static void in_time(struct ctx *x, int n, const char *what) {
    if (!tmo) return;
    u64 d = x->t1 - x->t0;
    CHECK(d <= (u64)n * (tmo * MS + 1500 * MS + (small_buf ? 6 * SEC : 0)) + 3 * sim_injected_since(x->t0), "too-late", "%s took %.0f ms, the time-out is %u ms", what, (double)d / 1e6, tmo);
}
/* a call whose request went over a connection that ended must not wait on */
static void loss_noticed(int q, u64 t) {
    if (!R[q].seen || maxlat > 100 * SEC || stopping) return;
    u64 d = S[R[q].conn].dead_at;
    if (d && t > d) CHECK(t - d <= 5 * SEC + maxlat + 3 * sim_injected_since(d), "loss-unnoticed", "request %d still waits %.1f s after its connection ended", q, (double)(t - d) / SEC);
}
static void lose(char *a, char *b) { free(a); free(b); }
static int reuse = -1;
static void call(int t) {
    struct ctx x;
    mcp_error_code_t ec = 0;
    char *res = 0, *em = 0, par[200];
    int rc, q;
    u32 kind = W(10);
    if (kind < 4) {
        q = new_req(t, K_REQ);
        snprintf(par, sizeof par, "{\"a\":\"tok%d\"}", q);
        begin(&x); sim_log("request %d starts", q);
        rc = mcp_client_send_request(cl, "echo", par, &res, &ec, &em); x.t1 = sim_now();
    } else if (kind == 4) {
        q = new_req(t, K_RAW);
        static const int shift[] = {6, 6, 16, 32};
        u64 id = 1000000 + ((u64)q << shift[W(4)]);
        if (reuse >= 0 && W(2)) { id = R[reuse].id; sim_probe("id used again"); }
        reuse = -1;
        snprintf(par, sizeof par, "{\"a\":\"tok%d\"}", q);
        begin(&x); sim_log("raw request %d starts, id %llu", q, (unsigned long long)id);
        rc = mcp_client_send_raw_request(cl, "raw", par, id, &res, &ec, &em); x.t1 = sim_now();
        if (R[q].seen) CHECK(R[q].id == id, "wrong-id", "request %d was sent with another id", q);
    } else if (kind < 7) {
        /* batch */
        int n = 1 + (int)W(4), qs[4];
        static char pars[NT][4][40];
        mcp_batch_request_t rq[4];
        for (int i = 0; i < n; i++) {
            qs[i] = new_req(t, K_REQ);
            snprintf(pars[t][i], 40, "{\"a\":\"tok%d\"}", qs[i]);
            rq[i] = (mcp_batch_request_t){.method = "echo", .params = pars[t][i], .id = 500 + (u64)i * 3};
        }
        mcp_batch_response_t *rs = 0;
        size_t nr = 0;
        begin(&x); sim_log("batch of %d starts at %d", n, qs[0]);
        rc = kind == 5 ? mcp_client_send_batch_request(cl, rq, (size_t)n, &rs, &nr) : mcp_client_send_batch_request_optimized(cl, rq, (size_t)n, &rs, &nr); x.t1 = sim_now();
        if (rc) { CHECK(stopping || sim_alloc_failed(), "batch-failed", "a batch call failed"); return; }
        CHECK(nr == (size_t)n && rs, "batch-count", "a batch of %d requests has %zu responses", n, nr);
        for (int i = 0; i < n; i++) {
            CHECK(rs[i].id == rq[i].id, "batch-id", "member %d of a batch has id %llu, %llu was asked", i, (unsigned long long)rs[i].id, (unsigned long long)rq[i].id);
            R[qs[i]].ended = 1;
            if (rs[i].error_code == 0) { char *v = rs[i].result ? strstr(rs[i].result, "\"V") : 0; origin(qs[i], v ? v + 1 : rs[i].result, 'V', 0); sim_mark_nontrivial(); }
            else if (rs[i].error_message && rs[i].error_message[0] == 'E') origin(qs[i], rs[i].error_message, 'E', (int)rs[i].error_code);
            else failed(qs[i], &x, x.t0);
        }
        in_time(&x, n, "a batch");
        sim_probe("batch");
        mcp_client_free_batch_responses(rs, nr);
        return;
    } else if (kind == 7) {
        q = new_req(t, K_TOOL);
        char nm[24];
        snprintf(nm, sizeof nm, "tok%d", q);
        mcp_content_item_t **co = 0; size_t n = 0; bool ie = 0;
        begin(&x); sim_log("call_tool %d starts", q);
        rc = mcp_client_call_tool(cl, nm, W(2) ? "{\"k\":[1,2,{}]}" : 0, &co, &n, &ie); x.t1 = sim_now();
        R[q].ended = 1;
        if (!rc) {
            CHECK(n == 1 && co && co[0], "wrong-response", "request %d: %zu items instead of 1", q, n);
            origin(q, co[0]->data, 'V', 0);
            CHECK(!ie, "wrong-response", "request %d is told the tool failed", q);
            mcp_content_item_free(co[0]); free(co);
            sim_mark_nontrivial();
        }
        goto api;
    } else if (kind == 8) {
        q = new_req(t, K_READ);
        char nm[40];
        snprintf(nm, sizeof nm, "res://tok%d", q);
        mcp_content_item_t **co = 0; size_t n = 0;
        begin(&x); sim_log("read_resource %d starts", q);
        rc = mcp_client_read_resource(cl, nm, &co, &n); x.t1 = sim_now();
        R[q].ended = 1;
        if (!rc) {
            CHECK(n == 1 && co && co[0], "wrong-response", "request %d: %zu items instead of 1", q, n);
            origin(q, co[0]->data, 'V', 0);
            mcp_content_item_free(co[0]); free(co);
            sim_mark_nontrivial();
        }
        goto api;
    } else {
        int k = (int)W(3); k = k == 0 ? K_TOOLS : k == 1 ? K_RES : K_TEMPL;
        if (list_busy[k]) return;
        list_busy[k] = 1;
        q = new_req(t, k);
        list_req[k] = q;
        size_t n = 0;
        begin(&x); sim_log("list %d starts", q);
        if (k == K_TOOLS) {
            mcp_tool_t **l = 0;
            rc = mcp_client_list_tools(cl, &l, &n); x.t1 = sim_now();
            if (!rc) { CHECK(n == 1 && l, "wrong-response", "request %d: %zu items", q, n); origin(q, l[0]->name, 'V', 0); mcp_tool_free(l[0]); free(l); }
        } else if (k == K_RES) {
            mcp_resource_t **l = 0;
            rc = mcp_client_list_resources(cl, &l, &n); x.t1 = sim_now();
            if (!rc) { CHECK(n == 1 && l, "wrong-response", "request %d: %zu items", q, n); origin(q, l[0]->uri, 'V', 0); mcp_resource_free(l[0]); free(l); }
        } else {
            mcp_resource_template_t **l = 0;
            rc = mcp_client_list_resource_templates(cl, &l, &n); x.t1 = sim_now();
            if (!rc) { CHECK(n == 1 && l, "wrong-response", "request %d: %zu items", q, n); origin(q, l[0]->uri_template, 'V', 0); mcp_resource_template_free(l[0]); free(l); }
        }
        /* the request may still be under way to the server when the call failed */
        if (rc && !R[q].seen) list_busy[k] = 2; else list_busy[k] = 0;
        if (!rc) sim_mark_nontrivial();
        goto api;
    }
    sim_log("request %d ends: %d, code %d, %.30s", q, rc, (int)ec, res ? res : em ? em : "-");
    R[q].ended = 1;
    if (rc == 0) {
        CHECK(!ec, "wrong-response", "request %d succeeded with error code %d", q, (int)ec);
        char *v = res ? strstr(res, "\"V") : 0;
        origin(q, v ? v + 1 : res, 'V', 0);
        if (R[q].kind == K_RAW && R[q].single) reuse = q;
        sim_mark_nontrivial();
    } else if (em && em[0] == 'E') { origin(q, em, 'E', (int)ec); sim_probe("error response"); }
    else failed(q, &x, x.t0);
    lose(res, em);
    in_time(&x, 1, "a call");
    loss_noticed(q, x.t1);
    return;
api:
    sim_log("request %d ends: %d", q, rc);
    if (rc) {
        /* an error object sent by the server ends the call, too */
        int e = 0;
        for (int i = 0; i < nresp; i++) e |= P[i].req == q && P[i].sent && P[i].isErr;
        if (!e) failed(q, &x, x.t0);
    }
    in_time(&x, 1, "a call");
    loss_noticed(q, x.t1);
}
static void caller(void *a) {
    int t = (int)(long)a;
    int n = (int)WR(1, 14);
    for (int i = 0; i < n; i++) {
        if (W(3) == 1) sim_sleep_ns((W(4) ? WR(1, 60) : WR(100, 2000)) * MS);
        if (quit) break;
        T[t].seen = 0; T[t].in_call = 1;
        call(t);
        T[t].in_call = 0;
    }
}
static int p_safe(void *a) { (void)a; for (int i = 0; i < NT; i++) if (T[i].in_call && !T[i].seen) return 0; return 1; }
static int p_conn(void *a) { (void)a; return connected; }
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    memset(S, 0, sizeof S); memset(R, 0, sizeof R); memset(P, 0, sizeof P); memset(T, 0, sizeof T);
    memset(list_busy, 0, sizeof list_busy);
    nreq = nresp = nsc = over = quit = stopping = destroyed = nloss = connected = 0;
    want_up = 1; reuse = -1;
    sim_limit(5000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SPURIOUS));
    inject_loss = sim_get_rate(DK_RESET) > 0;
    maxlat = 20 * MS;
    u32 cfg_net = C(4);
    small_buf = cfg_net == 1;                     /* a send may block until the server reads on */
    if (small_buf) net_config(50000, 2 * MS, 4000);
    if (cfg_net == 2) { net_config(1 * MS, 80 * MS, 100000); maxlat = 400 * MS; }
    if (sim_get_rate(DK_DELAY)) maxlat += 2 * SEC;
    static const u32 tm[] = {30, 200, 1000, 1000, 5000, 5000, 30000, 0};
    tmo = tm[C(8)];
    allow_silent = C(4) != 1;
    mcp_reconnect_config_t rc = MCP_DEFAULT_RECONNECT_CONFIG;
    rc.enable_reconnect = C(6) != 1;
    rc.initial_reconnect_delay_ms = CR(5, 300);
    rc.max_reconnect_delay_ms = 500;
    rc.max_reconnect_attempts = 0;
    int acc = sim_spawn(acceptor, 0), tid[NT];
    sim_sleep_ns(20 * MS);
    sim_nofault_begin();
    tr = mcp_tcp_client_create_reconnect("127.0.0.1", PORT, &rc);
    sim_nofault_end();
    CHECK(tr, "create-failed", "the transport could not be created");
    mcp_tcp_client_set_connection_state_callback(tr, on_state, 0);
    mcp_client_config_t cc = {.request_timeout_ms = tmo};
    cl = mcp_client_create(&cc, tr);
    if (!cl) {
        CHECK(sim_injected() || inject_loss || sim_get_rate(DK_REFUSE) || sim_get_rate(DK_CONN_TIMEOUT) || !rc.enable_reconnect, "create-failed", "the client could not be created");
        over = 1;
        sim_join(acc);
        return;
    }
    if (rc.enable_reconnect) for (int i = 0; i < 30 && !connected; i++) sim_wait_until(p_conn, 0, 5 * SEC);
    int nt = (int)CR(1, NT);
    for (int i = 0; i < nt; i++) tid[i] = sim_spawn(caller, (void *)(long)i);
    int phases = (int)CR(0, 4);
    for (int p = 0; p < phases; p++) {
        sim_sleep_ns((W(2) ? WR(1, 100) : WR(100, 3000)) * MS);
        switch (W(6)) {
        case 0:                                                         /* connections end */
            for (int i = 0; i < nsc; i++) if (!S[i].dead) S[i].kill = 1 + (int)W(2);
            sim_count_fault(DK_PEER);
            sim_probe("connection ended");
            break;
        case 1:                                                         /* server away for a while */
            want_up = 0;
            for (int i = 0; i < nsc; i++) if (!S[i].dead) S[i].kill = 1 + (int)W(2);
            sim_count_fault(DK_PEER);
            sim_sleep_ns(WR(10, 2000) * MS);
            want_up = 1;
            break;
        case 2: {
            u64 d = WR(10, 3000) * MS;
            maxlat = 1000000 * SEC;                                     /* anything may be late from here on */
            sim_count_fault(DK_PARTITION);
            net_partition(1);
            sim_sleep_ns(d);
            net_partition(0);
            sim_probe("partition");
            break; }
        default: break;
        }
    }
    if (C(2)) {
        /* destroyed while calls are waiting; a call counts once its request got to the server */
        if (W(2)) sim_sleep_ns(WR(1, 500) * MS);
        quit = 1;
        for (int i = 0; i < 100; i++) if (sim_wait_until(p_safe, 0, 10 * SEC)) break;
        if (!p_safe(0)) sim_inconclusive("calls did not get to the server");
        for (int i = 0; i < nt; i++) if (T[i].in_call) sim_probe("destroyed with calls waiting");
    } else {
        u64 lim = tmo ? 14 * 4 * (tmo + 3000) * MS : 100 * SEC;
        for (int i = 0; i < nt; i++) {
            u64 a = sim_now();
            int ok = 0;
            for (int k = 0; k < 40 && !ok; k++) { ok = sim_join_for(tid[i], lim / 8); if (!ok && sim_now() - a > lim + 4 * sim_injected_since(a)) break; }
            if (!ok && !tmo) {
                for (int j = 0; j < nt; j++) if (T[j].in_call) loss_noticed(T[j].q, sim_now());
                quit = 1;
                break;
            }
            CHECK(ok, "call-stuck", "a call does not return");
        }
        quit = 1;
        for (int i = 0; i < 100; i++) if (sim_wait_until(p_safe, 0, 10 * SEC)) break;
        if (!p_safe(0)) sim_inconclusive("calls did not get to the server");
    }
    stopping = 1;
    u64 a = sim_now();
    mcp_client_destroy(cl);
    destroyed = 1;
    CHECK(sim_now() - a <= 10 * SEC + 3 * sim_injected_since(a), "destroy-slow", "destroying the client took %.1f s", (double)(sim_now() - a) / SEC);
    for (int i = 0; i < nt; i++) {
        u64 b = sim_now();
        int ok = 0;
        for (int k = 0; k < 40 && !ok; k++) { ok = sim_join_for(tid[i], 5 * SEC); if (!ok && sim_now() - b > 20 * SEC + 4 * sim_injected_since(b)) break; }
        CHECK(ok, "call-stuck", "a call does not return after the client was destroyed");
    }
    over = 1;
    sim_join(acc);
    sim_state((u64)(nloss > 3 ? 3 : nloss) * 1000 + (u64)nt * 100 + (u64)(nreq / 8));
}
HARNESS(client, "P05", "client", run,
        "client library (requests, batches, pending table), TCP client transport, framing, socket utilities, JSON",
        "network, clock, threads; the server is a model that answers in any order, late, twice, wrongly or never",
        "a call returned with the response to its own request", 1)
MEMORY_HARNESS(client_mem, "memory-client", run,
        "client library (requests, batches, pending table), TCP client transport, framing, socket utilities, JSON",
        "network, clock, threads; the server is a model that answers in any order, late, twice, wrongly or never", 2)
