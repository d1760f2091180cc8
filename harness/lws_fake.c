#include "sim.h"
#include "lws_fake.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <strings.h>

struct lws_context {
    const struct lws_protocols *protocols;
    void *user;
    int cancelled, serving, outside, depth;     /* threads in the service loop and in another call, each plus one */
};
static struct lws_context *theone;
static lpeer *peers;
int lws_fake_ctx_live, lws_fake_served, lws_fake_strict;
u64 lws_fake_idle_ms;
void *lws_fake_ctx_user;
struct lws *lws_fake_new(size_t n) {
    struct lws *w = simh_calloc(1, sizeof *w);
    w->user = n ? simh_calloc(1, n) : 0;
    return w;
}
void lws_fake_free(struct lws *w) {
    if (w->user) sim_free(w->user);
    if (w->out) sim_free(w->out);
    sim_free(w);
}
static void use(struct lws *w, const char *what) {
    CHECK(sim_heap_live(w, sizeof *w) && !w->closed, "closed-connection-used", "%s on a connection that is closed", what);
}
/* the library is not made for use by two threads at a time */
static void enter(struct lws_context *c, const char *what) {
    if (!c || c != theone || !lws_fake_strict) return;
    int me = sim_self() + 1;
    CHECK((!c->serving || c->serving == me) && (!c->outside || c->outside == me), "library-shared", "%s while another thread is inside the library", what);
    c->outside = me;
    c->depth++;
}
static void leave(struct lws_context *c) { if (c && c == theone && lws_fake_strict && !--c->depth) c->outside = 0; }
static int out(struct lws *w, const unsigned char *buf, size_t len, int p);
static int write_in(struct lws *w, unsigned char *buf, size_t len, enum lws_write_protocol p);
int lws_write(struct lws *w, unsigned char *buf, size_t len, enum lws_write_protocol p) {
    use(w, "write");
    struct lws_context *c = w->ctx;
    enter(c, "write");
    int r = write_in(w, buf, len, p);
    leave(c);
    return r;
}
static int write_in(struct lws *w, unsigned char *buf, size_t len, enum lws_write_protocol p) {
    sim_check_range(buf, len, 0, "lws_write");
    sim_yield();
    use(w, "write");
    if (!w->broken && sim_fault(DK_RESET)) { sim_count_fault(DK_RESET); w->broken = 1; if (w->peer) lp_close(w->peer); }
    if (w->peer && w->peer->broken) w->broken = 1;
    if (w->broken || (w->peer && w->peer->client && !w->ws)) return -1;
    if (w->ctx) return out(w, buf, len, p);
    if (w->len + len + 1 > w->cap) {
        w->cap = (w->len + len + 1) * 2;
        w->out = simh_realloc(w->out, w->cap);
    }
    memcpy(w->out + w->len, buf, len);
    w->len += len;
    w->out[w->len] = 0;
    return (int)len;
}
void *lws_wsi_user(struct lws *w) { use(w, "lookup of the session"); return w->user; }
struct lws_context *lws_get_context(const struct lws *w) { return w->ctx ? w->ctx : (struct lws_context *)w; }
void *lws_context_user(struct lws_context *c) { return c && c == theone ? theone->user : lws_fake_ctx_user; }
int lws_callback_on_writable(struct lws *w) { use(w, "write request"); w->want_write = 1; return 0; }
int lws_http_mark_sse(struct lws *w) { (void)w; return 0; }

static int hput(unsigned char **p, unsigned char *end, const char *s, size_t n) {
    if (*p + n + 1 >= end) return 1;
    sim_check_range(*p, n, 1, "HTTP header");
    memcpy(*p, s, n);
    *p += n;
    return 0;
}
int lws_add_http_header_status(struct lws *w, unsigned int code, unsigned char **p, unsigned char *end) {
    static char pad[401];
    if (!w->ctx) return 0;
    if (!pad[0]) memset(pad, 'h', 400);
    use(w, "header");
    CHECK(w->busy, "response-without-request", "a response is begun while no request is waiting for one");
    CHECK(!w->headers, "second-response", "a second response to one request");
    w->code = (int)code;
    w->declared = (size_t)-1;
    w->headers = 1;
    return hput(p, end, pad, 400);
}
int lws_add_http_common_headers(struct lws *w, unsigned int code, const char *ct, lws_filepos_t len, unsigned char **p, unsigned char *end) {
    if (!w->ctx) return 0;
    if (lws_add_http_header_status(w, code, p, end)) return 1;
    w->declared = len == LWS_ILLEGAL_HTTP_CONTENT_LEN ? (size_t)-1 : (size_t)len;
    if (w->declared == (size_t)-1) w->close_after = 1;   /* "Connection: close" takes the place of the length */
    return hput(p, end, ct, strlen(ct)) || hput(p, end, "content-length: 123456\r\n", 24);
}
int lws_add_http_header_by_name(struct lws *w, const unsigned char *n, const unsigned char *v, int l, unsigned char **p, unsigned char *end) {
    if (!w->ctx) return 0;
    use(w, "header");
    return hput(p, end, (const char *)n, strlen((const char *)n)) || hput(p, end, (const char *)v, (size_t)l) || hput(p, end, "\r\n", 2);
}
int lws_add_http_header_by_token(struct lws *w, enum lws_token_indexes t, const unsigned char *v, int l, unsigned char **p, unsigned char *end) {
    if (!w->ctx) return 0;
    if (t == WSI_TOKEN_HTTP_CONTENT_LENGTH) w->declared = (size_t)atol((const char *)v);
    return hput(p, end, "token", 5) || hput(p, end, (const char *)v, (size_t)l);
}
int lws_add_http_header_content_length(struct lws *w, lws_filepos_t len, unsigned char **p, unsigned char *end) {
    if (!w->ctx) return 0;
    w->declared = (size_t)len;
    return hput(p, end, "content-length: 123456\r\n", 24);
}
static int begin(struct lws *w) {
    lpeer *q = w->peer;
    CHECK(w->headers == 1, "second-response", "response headers are sent twice");
    w->headers = 2;
    w->written = 0;
    if (q->nresp == q->cresp) { q->cresp = q->cresp ? q->cresp * 2 : 8; q->resp = simh_realloc(q->resp, (size_t)q->cresp * sizeof *q->resp); }
    struct lresp *r = &q->resp[q->nresp++];
    memset(r, 0, sizeof *r);
    r->code = w->code;
    if (w->code == 204) w->declared = 0;
    r->declared = w->declared;
    r->open_ended = w->declared == (size_t)-1;
    return 0;
}
int lws_finalize_http_header(struct lws *w, unsigned char **p, unsigned char *end) {
    if (!w->ctx) return 0;
    return hput(p, end, "\r\n", 2);
}
int lws_finalize_write_http_header(struct lws *w, unsigned char *s, unsigned char **p, unsigned char *end) {
    use(w, "header");
    if (w->ctx) {
        if (lws_finalize_http_header(w, p, end)) return 1;
        return lws_write(w, s, (size_t)(*p - s), LWS_WRITE_HTTP_HEADERS) < 0;
    }
    return w->broken ? 1 : 0;
}
static const char *hdr(struct lws *w, enum lws_token_indexes t) {
    if (t == WSI_TOKEN_HTTP_URI_ARGS) return w->args;
    int m = w->ctx ? w->method : w->post ? LM_POST : LM_GET;
    if (t == WSI_TOKEN_GET_URI) return m == LM_GET ? w->uri : 0;
    if (t == WSI_TOKEN_POST_URI) return m == LM_POST ? w->uri : 0;
    if (t == WSI_TOKEN_OPTIONS_URI) return m == LM_OPTIONS ? w->uri : 0;
    if (t == WSI_TOKEN_DELETE_URI) return m == LM_DELETE ? w->uri : 0;
    if (t == WSI_TOKEN_ORIGIN) return w->h[LH_ORIGIN];
    if (t == WSI_TOKEN_HTTP_ACCEPT) return w->h[LH_ACCEPT];
    return 0;
}
int lws_hdr_total_length(struct lws *w, enum lws_token_indexes t) { const char *h = hdr(w, t); return h ? (int)strlen(h) : 0; }
int lws_hdr_copy(struct lws *w, char *d, int n, enum lws_token_indexes t) {
    const char *h = hdr(w, t);
    if (!h || (int)strlen(h) >= n) return -1;
    strcpy(d, h);
    return (int)strlen(h);
}
int lws_http_get_uri_and_method(struct lws *w, char **puri, int *len) {
    static const int m[] = { LWSHUMETH_GET, LWSHUMETH_POST, LWSHUMETH_OPTIONS, LWSHUMETH_DELETE };
    use(w, "lookup of the method");
    sim_check_range(puri, sizeof *puri, 1, "lws_http_get_uri_and_method");
    sim_check_range(len, sizeof *len, 1, "lws_http_get_uri_and_method");
    *puri = (char *)w->uri;
    *len = (int)strlen(w->uri);
    return m[w->method];
}
lws_sockfd_type lws_get_socket_fd(struct lws *w) { if (w->peer && w->peer->client) return LWS_SOCK_INVALID; use(w, "lookup of the socket"); return 5; }
static const char *custom(struct lws *w, const char *n, int l) {
    if (w->ctx) return l == 15 && !strncmp(n, "mcp-session-id:", 15) ? w->h[LH_SESSION] : l == 14 && !strncmp(n, "last-event-id:", 14) ? w->h[LH_LAST_EVENT] : 0;
    return w->hname && (int)strlen(w->hname) == l && !strncasecmp(w->hname, n, (size_t)l) ? w->hvalue : 0;
}
int lws_hdr_custom_length(struct lws *w, const char *n, int l) {
    const char *v = custom(w, n, l);
    return v ? (int)strlen(v) : -1;
}
int lws_hdr_custom_copy(struct lws *w, char *d, int n, const char *name, int l) {
    int k = lws_hdr_custom_length(w, name, l);
    if (k < 0 || k >= n) return -1;
    strcpy(d, custom(w, name, l));
    return k;
}
int lws_callback_http_dummy(struct lws *w, enum lws_callback_reasons r, void *u, void *in, size_t n) {
    (void)w; (void)r; (void)u; (void)in; (void)n; return 0;
}

/* ============================ contexts ==================================== */
enum { E_CONNECT, E_UPGRADE, E_DATA, E_PONG, E_REQUEST, E_BODY, E_CLOSE };
static int out(struct lws *w, const unsigned char *buf, size_t len, int p) {
    lpeer *q = w->peer;
    p &= 0x1f;
    if (p == LWS_WRITE_HTTP_HEADERS) { begin(w); return (int)len; }
    if (p == LWS_WRITE_PING || p == LWS_WRITE_PONG) return (int)len;
    if (w->ws) {
        sim_check_range(buf - LWS_PRE, LWS_PRE, 1, "room before the data");
        memset((unsigned char *)buf - LWS_PRE, 0xEE, LWS_PRE);
        if (q->nmsg == q->cmsg) { q->cmsg = q->cmsg ? q->cmsg * 2 : 8; q->msg = simh_realloc(q->msg, (size_t)q->cmsg * sizeof *q->msg); }
        struct lmsg *m = &q->msg[q->nmsg++];
        m->data = simh_malloc(len + 1);
        memcpy(m->data, buf, len);
        m->data[len] = 0;
        m->len = len;
        return (int)len;
    }
    CHECK(w->busy && w->headers == 2, "body-without-headers", "%u bytes of a response body while no response is being sent", (u32)len);
    struct lresp *r = &q->resp[q->nresp - 1];
    if (r->len + len + 1 > r->cap) { r->cap = (r->len + len + 1) * 2; r->body = simh_realloc(r->body, r->cap); }
    memcpy(r->body + r->len, buf, len);
    r->len += len;
    r->body[r->len] = 0;
    CHECK(r->open_ended || r->len <= r->declared, "response-too-long", "a response of %u bytes was declared to have %u", (u32)r->len, (u32)r->declared);
    return (int)len;
}
static int call(struct lws *w, int reason, void *in, size_t len) {
    lws_fake_served++;
    return w->ctx->protocols[0].callback(w, (enum lws_callback_reasons)reason, w->user, in, len);
}
static void new_user(struct lws *w) {
    if (w->user) sim_free(w->user);
    size_t n = w->ctx->protocols[0].per_session_data_size;
    w->user = n ? simh_calloc(1, n) : 0;
    if (!w->ws) call(w, LWS_CALLBACK_HTTP_BIND_PROTOCOL, 0, 0);
}
int lws_http_transaction_completed(struct lws *w) {
    if (!w->ctx) return 0;
    use(w, "end of a transaction");
    CHECK(w->busy, "response-without-request", "a transaction is completed while no request is pending");
    if (w->headers == 2) {
        struct lresp *r = &w->peer->resp[w->peer->nresp - 1];
        if (!w->broken) CHECK(r->open_ended || r->len == r->declared, "response-truncated", "a response of %u bytes was declared to have %u", (u32)r->len, (u32)r->declared);
        CHECK(!r->open_ended || w->close_after, "response-without-length", "a response on a connection that stays open does not tell its length (status %d)", r->code);
        if (!w->broken) r->done = 1;
    } else if (!w->broken) CHECK(0, "no-response", "a transaction is completed without a response");
    w->busy = w->headers = 0;
    if (w->close_after) return 1;
    new_user(w);             /* the library binds the connection anew */
    return 0;
}
static void close_w(struct lws *w) {
    lpeer *q = w->peer;
    if (q->client) call(w, w->ws ? LWS_CALLBACK_CLIENT_CLOSED : LWS_CALLBACK_CLIENT_CONNECTION_ERROR, 0, 0);
    else if (w->ws) call(w, LWS_CALLBACK_CLOSED, 0, 0);
    else if (w->user) call(w, LWS_CALLBACK_CLOSED_HTTP, 0, 0);
    call(w, LWS_CALLBACK_WSI_DESTROY, 0, 0);
    w->closed = 1;
    if (w->user) sim_free(w->user);
    if (w->uri) sim_free((void *)w->uri);
    if (w->args) sim_free((void *)w->args);
    for (int i = 0; i < LH_N; i++) if (w->h[i]) sim_free(w->h[i]);
    sim_free(w);
    q->w = 0;
    q->gone = 1;
}
static int pending(lpeer *q) { return q->head || (q->w && (q->w->want_write || q->w->timed_close)); }
static int can_take(lpeer *q) {
    if (!pending(q)) return 0;
    if (!q->w) return q->head && q->head->kind == E_CONNECT;
    if (q->w->want_write || q->w->timed_close) return 1;
    if (q->head->kind == E_REQUEST && q->w->busy) return 0;   /* waits for the transaction before it */
    return 1;
}
static int anything(void *a) {
    struct lws_context *c = a;
    if (c->cancelled) return 1;
    for (lpeer *q = peers; q; q = q->next) if (can_take(q)) return 1;
    return 0;
}
static void handle(struct lws_context *c, lpeer *q) {
    struct lws *w = q->w;
    int r = 0;
    if (w && w->timed_close) { close_w(w); return; }
    if (w && w->want_write && (!q->head || W(2))) {
        w->want_write = 0;
        if (call(w, q->client ? LWS_CALLBACK_CLIENT_WRITEABLE : w->ws ? LWS_CALLBACK_SERVER_WRITEABLE : LWS_CALLBACK_HTTP_WRITEABLE, 0, 0)) close_w(w);
        return;
    }
    struct lev *e = q->head;
    if (!e || (e->kind == E_REQUEST && w->busy)) return;
    if (q->client) sim_log("library: connection %p event %d", (void *)w, e->kind);
    q->head = e->next;
    if (!q->head) q->tail = &q->head;
    switch (e->kind) {
    case E_CONNECT: {
        struct lws *n = simh_calloc(1, sizeof *n);
        n->ctx = c;
        n->peer = q;
        if (call(n, LWS_CALLBACK_FILTER_NETWORK_CONNECTION, 0, 0)) { sim_free(n); q->refused = q->gone = 1; break; }
        q->w = n;
        call(n, LWS_CALLBACK_SERVER_NEW_CLIENT_INSTANTIATED, 0, 0);
        call(n, LWS_CALLBACK_WSI_CREATE, 0, 0);
        q->connected = 1;
        break;
    }
    case E_UPGRADE:
        if (q->client) {
            w->ws = 1;
            r = call(w, LWS_CALLBACK_CLIENT_ESTABLISHED, 0, 0);
            if (!r) q->established = 1;
            break;
        }
        r = call(w, LWS_CALLBACK_FILTER_PROTOCOL_CONNECTION, 0, 0);
        if (r) { q->refused = 1; break; }
        w->ws = 1;
        new_user(w);
        r = call(w, LWS_CALLBACK_ESTABLISHED, 0, 0);
        if (r) q->refused = 1; else q->established = 1;
        break;
    case E_DATA:
        w->final = e->a;
        r = call(w, q->client ? LWS_CALLBACK_CLIENT_RECEIVE : LWS_CALLBACK_RECEIVE, e->data, e->len);
        break;
    case E_PONG: r = call(w, q->client ? LWS_CALLBACK_CLIENT_RECEIVE_PONG : LWS_CALLBACK_RECEIVE_PONG, e->data, 0); break;
    case E_REQUEST: {
        if (w->uri) sim_free((void *)w->uri);
        if (w->args) sim_free((void *)w->args);
        w->uri = e->uri; w->args = e->args; e->uri = e->args = 0;
        for (int i = 0; i < LH_N; i++) { if (w->h[i]) sim_free(w->h[i]); w->h[i] = e->h[i]; e->h[i] = 0; }
        w->method = e->a & 3;
        w->close_after = e->a >> 2 & 1;
        w->body_left = e->len;
        w->busy = 1;
        w->headers = 0;
        if (!w->user) new_user(w);
        char uri[300];
        snprintf(uri, sizeof uri, "%s", w->uri);
        r = call(w, LWS_CALLBACK_HTTP, uri, strlen(uri));
        if (!r && w->method == LM_POST && w->busy && !w->body_left) {
            char none[1] = { 0 };
            r = call(w, LWS_CALLBACK_HTTP_BODY, none, 0);
            if (!r) r = call(w, LWS_CALLBACK_HTTP_BODY_COMPLETION, 0, 0);
        }
        break;
    }
    case E_BODY:
        if (!w->busy) break;
        r = call(w, LWS_CALLBACK_HTTP_BODY, e->data, e->len);
        w->body_left -= e->len;
        if (!r && !w->body_left) r = call(w, LWS_CALLBACK_HTTP_BODY_COMPLETION, 0, 0);
        break;
    case E_CLOSE: r = -1; break;
    }
    if (r && q->w) close_w(q->w);
    q->handled++;
    if (e->data) sim_free(e->data);
    if (e->uri) sim_free(e->uri);
    if (e->args) sim_free(e->args);
    for (int i = 0; i < LH_N; i++) if (e->h[i]) sim_free(e->h[i]);
    sim_free(e);
}
static void forget(lpeer *q) {             /* what a peer sends after the connection is gone */
    while (q->head) {
        struct lev *e = q->head;
        q->head = e->next;
        q->handled++;
        if (e->data) sim_free(e->data);
        if (e->uri) sim_free(e->uri);
        if (e->args) sim_free(e->args);
        for (int i = 0; i < LH_N; i++) if (e->h[i]) sim_free(e->h[i]);
        sim_free(e);
    }
    q->tail = &q->head;
}
int lws_service(struct lws_context *c, int ms) {
    CHECK(c && c == theone && sim_heap_live(c, sizeof *c), "context-gone", "the service loop runs on a context that is gone");
    CHECK(!c->serving, "two-service-loops", "two threads run the service loop of one context");
    CHECK(!c->outside, "library-shared", "the service loop runs while another thread is inside the library");
    c->serving = sim_self() + 1;
    int got = sim_wait_until(anything, c, ((u64)ms + lws_fake_idle_ms) * MS);
    CHECK(c == theone && sim_heap_live(c, sizeof *c), "context-gone", "the context was destroyed under its service loop");
    if (c->cancelled) c->cancelled = 0;
    else if (got) {
        int n = 0;
        for (lpeer *q = peers; q; q = q->next) n += can_take(q);
        int k = (int)W((u32)n);
        for (lpeer *q = peers; q; q = q->next)
            if (can_take(q) && !k--) { handle(c, q); if (q->gone) forget(q); break; }
    }
    CHECK(c == theone, "context-gone", "the context was destroyed by a callback");
    c->serving = 0;
    return 0;
}
void lws_cancel_service(struct lws_context *c) {
    CHECK(c && c == theone && sim_heap_live(c, sizeof *c), "context-gone", "the service loop of a context that is gone is woken");
    c->cancelled = 1;
}
struct lws_context *lws_create_context(const struct lws_context_creation_info *i) {
    CHECK(!theone, "two-contexts", "a second context is created");
    if (sim_fault(DK_SOCKET)) { sim_count_fault(DK_SOCKET); return 0; }
    struct lws_context *c = simh_calloc(1, sizeof *c);
    c->protocols = i->protocols;
    c->user = i->user;
    theone = c;
    lws_fake_ctx_live++;
    struct lws *n = simh_calloc(1, sizeof *n);
    n->ctx = c;
    for (const struct lws_protocols *p = c->protocols; p->callback; p++) p->callback(n, LWS_CALLBACK_PROTOCOL_INIT, 0, 0, 0);
    sim_free(n);
    return c;
}
void lws_context_destroy(struct lws_context *c) {
    CHECK(c && c == theone && sim_heap_live(c, sizeof *c), "context-gone", "a context is destroyed twice");
    CHECK(!c->serving, "destroyed-while-served", "the context is destroyed while its service loop runs");
    for (lpeer *q = peers; q; q = q->next) { if (q->w) close_w(q->w); q->gone = 1; forget(q); }
    struct lws *n = simh_calloc(1, sizeof *n);
    n->ctx = c;
    for (const struct lws_protocols *p = c->protocols; p->callback; p++) p->callback(n, LWS_CALLBACK_PROTOCOL_DESTROY, 0, 0, 0);
    sim_free(n);
    theone = 0;
    lws_fake_ctx_live--;
    sim_free(c);
}
int lws_is_final_fragment(struct lws *w) { return w->final; }
void lws_set_opaque_user_data(struct lws *w, void *d) { w->opaque = d; }
void *lws_get_opaque_user_data(const struct lws *w) { return w->opaque; }
void lws_set_timeout(struct lws *w, enum pending_timeout r, int s) { (void)r; (void)s; use(w, "time-out"); w->timed_close = 1; }

static void put_ev(lpeer *p, int kind, int a, const void *d, size_t n) {
    if (p->gone) return;
    struct lev *e = simh_calloc(1, sizeof *e);
    e->kind = kind;
    e->a = a;
    e->len = n;
    if (d || kind == E_DATA) { e->data = simh_malloc(n + 1); if (n) memcpy(e->data, d, n); }
    *p->tail = e;
    p->tail = &e->next;
    p->queued++;
}
lpeer *lp_connect(void) {
    lpeer *p = simh_calloc(1, sizeof *p);
    p->tail = &p->head;
    lpeer **q = &peers;
    while (*q) q = &(*q)->next;
    *q = p;
    put_ev(p, E_CONNECT, 0, 0, 0);
    if (!theone) p->refused = p->gone = 1, forget(p);
    return p;
}
/* a connection the code under test opens; the harness accepts (lp_upgrade) or refuses (lp_close) it */
void (*lws_fake_on_client)(lpeer *);
struct lws *lws_client_connect_via_info(const struct lws_client_connect_info *i) {
    struct lws_context *c = i->context;
    CHECK(c && c == theone && sim_heap_live(c, sizeof *c), "context-gone", "a connection is opened in a context that is gone");
    enter(c, "connecting");
    sim_yield();
    if (sim_fault(DK_SOCKET)) { sim_count_fault(DK_SOCKET); leave(c); return 0; }
    lpeer *p = simh_calloc(1, sizeof *p);
    p->tail = &p->head;
    p->client = 1;
    snprintf(p->where, sizeof p->where, "%s:%d%s", i->address ? i->address : "", i->port, i->path ? i->path : "");
    lpeer **q = &peers;
    while (*q) q = &(*q)->next;
    *q = p;
    struct lws *n = simh_calloc(1, sizeof *n);
    n->ctx = c;
    n->peer = p;
    p->w = n;
    call(n, LWS_CALLBACK_WSI_CREATE, 0, 0);
    call(n, LWS_CALLBACK_CONNECTING, 0, 0);
    if (lws_fake_on_client) lws_fake_on_client(p);
    leave(c);
    return n;
}
void lp_upgrade(lpeer *p) { put_ev(p, E_UPGRADE, 0, 0, 0); }
void lp_send(lpeer *p, const void *d, size_t n, int final) { put_ev(p, E_DATA, final, d, n); }
void lp_pong(lpeer *p) { put_ev(p, E_PONG, 0, "", 0); }
void lp_request(lpeer *p, int method, const char *uri, const char *args, size_t content_len, int close_after) {
    if (p->gone) return;
    put_ev(p, E_REQUEST, method | close_after << 2, 0, content_len);
    struct lev *e = (struct lev *)((char *)p->tail - offsetof(struct lev, next));
    e->uri = simh_strdup(uri);
    e->args = args ? simh_strdup(args) : 0;
    /* the library resolves escapes before anybody sees the arguments */
    if (e->args) {
        char *o = (char *)e->args;
        for (const char *c = e->args; *c; c++) {
            unsigned x;
            if (*c == '%' && sscanf(c + 1, "%2x", &x) == 1) { *o++ = (char)x; c += 2; }
            else *o++ = *c;
        }
        *o = 0;
    }
}
void lp_header(lpeer *p, int which, const char *v) {
    if (p->gone) return;
    struct lev *e = (struct lev *)((char *)p->tail - offsetof(struct lev, next));
    e->h[which] = simh_strdup(v);
}
void lp_body(lpeer *p, const void *d, size_t n) { put_ev(p, E_BODY, 0, d, n); }
void lp_close(lpeer *p) { if (!p->closing) { p->closing = 1; put_ev(p, E_CLOSE, 0, 0, 0); } }
void lp_drop(lpeer *p) { p->broken = 1; lp_close(p); }
int lp_can_request(lpeer *p) { return p->w && !p->w->busy; }
void lp_free_all(void) {
    while (peers) {
        lpeer *p = peers;
        peers = p->next;
        forget(p);
        for (int i = 0; i < p->nresp; i++) if (p->resp[i].body) sim_free(p->resp[i].body);
        for (int i = 0; i < p->nmsg; i++) sim_free(p->msg[i].data);
        if (p->resp) sim_free(p->resp);
        if (p->msg) sim_free(p->msg);
        sim_free(p);
    }
}
