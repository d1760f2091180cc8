/* P17: server-sent events received by the HTTP client transport. P24: calls of the client library over it. */
#include "sim.h"
#include "mcp_client.h"
#include "mcp_http_client_transport.h"
#include "mcp_transport.h"
#include "mcp_types.h"
#include "mcp_log.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <errno.h>

#define PORT 7300
#define NCONN 400
static int over, nconn, serving, want_up, faulty;
static u32 tmo;
static u64 maxlat;
static const char *key;
static int tid_conn[NCONN], hand[NCONN], closed_[NCONN], gently[NCONN], kill_all;
static void handle_events(int c, char *req);
static void handle_call(int c, char *req, size_t have);

/* sends in pieces; 0 once the connection is of no use */
static int put_paused(int c, const char *b, size_t n, size_t at, u64 ns) {
    size_t o = 0;
    while (o < n) {
        if (over || kill_all) return 0;
        size_t m = n - o;
        if (W(3) == 1) { m = 1 + W((u32)(m < 40 ? m : 40)); if (W(4) == 1) sim_sleep_ns(WR(1, 30) * MS); }
        else if (W(2)) m = 1 + W((u32)m);
        if (ns && o < at && o + m > at) m = at - o;
        if (ns && o == at) { sim_sleep_ns(ns); ns = 0; }
        int r = hnet_send_for(hand[c], b + o, m, 500 * MS);
        if (r < (int)m && errno != EAGAIN) return 0;
        if (r > 0) o += (size_t)r;
    }
    return 1;
}
static int put(int c, const char *b, size_t n) { return put_paused(c, b, n, 0, 0); }
static void conn(void *a) {
    int c = (int)(long)a;
    char *b = calloc(1, 40000);
    size_t n = 0;
    u64 lim = sim_now() + 200 * SEC;
    while (!strstr(b, "\r\n\r\n") && !over && !kill_all && sim_now() < lim) {
        long r = hnet_recv(hand[c], b + n, 39000 - n, 200 * MS);
        if (r == -2) continue;
        if (r <= 0) goto out;
        n += (size_t)r;
    }
    if (strstr(b, "\r\n\r\n")) {
        char want[200], *au = strcasestr(b, "\r\nAuthorization:"), *end = strstr(b, "\r\n\r\n");
        if (au && au > end) au = 0;
        CHECK(!!au == !!key, "bad-request", "the API key is%s in the request", au ? "" : " not");
        if (key) { snprintf(want, sizeof want, "\r\nAuthorization: Bearer %s\r\n", key); CHECK(!strncmp(au, want, strlen(want)), "bad-request", "the API key is not the configured one"); }
        if (!strncmp(b, "GET /events HTTP/1.1\r\n", 22)) handle_events(c, b);
        else if (!strncmp(b, "POST /call_tool HTTP/1.1\r\n", 26)) handle_call(c, b, n);
        else CHECK(0, "bad-request", "the server got %.40s", b);
    }
out:
    free(b);
    if (!closed_[c]) { if (!gently[c] && W(6) == 1) hnet_reset(hand[c]); else hnet_close(hand[c]); }
    serving--;
}
static void acceptor(void *a) {
    (void)a;
    int l = -1;
    while (!over) {
        if (want_up && l < 0) { l = hnet_listen(PORT); if (l < 0) sim_sleep_ns(10 * MS); continue; }
        if (!want_up) { if (l >= 0) { hnet_close(l); l = -1; } sim_sleep_ns(10 * MS); continue; }
        int h = hnet_accept(l, 20 * MS);
        if (h < 0) continue;
        if (nconn >= NCONN) sim_inconclusive("too many connections");
        hand[nconn] = h;
        serving++;
        tid_conn[nconn] = sim_spawn(conn, (void *)(long)nconn);
        nconn++;
    }
    if (l >= 0) hnet_close(l);
}
static int p_idle(void *a) { (void)a; return serving == 0; }
static void net_setup(void) {
    over = nconn = serving = kill_all = 0;
    want_up = 1;
    memset(closed_, 0, sizeof closed_); memset(gently, 0, sizeof gently);
    key = C(3) == 1 ? "sesame" : 0;
    maxlat = 40 * MS;
    u32 cfg_net = C(4);
    if (cfg_net == 1) net_config(50000, 2 * MS, 4000);
    if (cfg_net == 2) { net_config(1 * MS, 80 * MS, 100000); maxlat = 400 * MS; }
    if (cfg_net == 3) net_config(50000, 2 * MS, 97);
    if (sim_get_rate(DK_DELAY)) maxlat += 3 * SEC;
    faulty = sim_get_rate(DK_RESET) || sim_get_rate(DK_REFUSE) || sim_get_rate(DK_CONN_TIMEOUT) || sim_get_rate(DK_SOCKET) || sim_get_rate(DK_DNS) || sim_get_rate(DK_THREAD) || sim_get_rate(DK_OOM);
}
static void net_over(int acc) {
    over = 1;
    sim_join(acc);
    for (int i = 0; i < nconn; i++) sim_join(tid_conn[i]);
}
/* ======================= P17: events ========================================= */
#define NEV 60
static struct ev { char *data, *id; int nlines; } E[NEV];
static int nev, ngot;                     /* events, next event the client has to deliver on the present connection */
static int live_id, live;                          /* the connection the deliveries belong to, -1 none yet */
static int lastid;                        /* last delivered event with an id, -1 */
static int lastid_alt[NEV], nalt;         /* events without data sent after it, their id may be the last one as well */
static int from, upto, sentfull;          /* what this connection carries: events from.. ; the first not yet begun; completely sent */
static int conn_open, in_cb, stopped, running, ndeliv, most, delivered[NEV], nreconn, started_n;
static u32 slow_cb;

static char *line_end(int style) { switch (style) { case 0: return "\n"; case 1: return "\r\n"; case 2: return "\r"; default: return W(2) ? "\r\n" : "\n"; } }
static void mk_event(int i) {
    static const char *odd[] = {"{\"a\":1}", "data: x", "id: 7", ": not a comment", "  two spaces", " one", "event:y", "\xc3\xa9\xe2\x82\xac", "a:b:c", "trailing ", "retry: 1", "\ttab"};
    struct ev *e = &E[i];
    char *d = malloc(116000);
    d[0] = 0;
    e->id = 0;
    if (W(5)) { static const char *form[] = {"%d", "ev-%d.x y", "%d-0123456789abcdef-0123456789abcdef-0123456789abcdef-0123456789abcdef", "%d"}; e->id = malloc(120); snprintf(e->id, 120, form[W(4)], i + 1); }
    e->nlines = W(8) == 1 && e->id ? 0 : W(3) ? 1 : (int)WR(2, 4);
    for (int k = 0; k < e->nlines; k++) {
        char t[5000];
        if (k == 0) snprintf(t, sizeof t, "e%d %s", i, odd[W(12)]);
        else if (W(4) == 1) t[0] = 0;
        else snprintf(t, sizeof t, "%s", odd[W(12)]);
        if (W(12) == 1) { size_t l = strlen(t); u32 n = WR(100, 4500); memset(t + l, 'a' + (char)W(26), n); t[l + n] = 0; }
        if (k) strcat(d, "\n");
        strcat(d, t);
    }
    if (e->nlines == 1 && W(100) == 1) { size_t l = strlen(d); u32 n = WR(60000, 90000); memset(d + l, 'B', n); d[l + n] = 0; sim_probe("large event"); }
    e->data = d;
}
static char *on_msg(void *ud, const void *p, size_t n, int *ec) {
    (void)ud; *ec = 0;
    CHECK(!stopped, "late-callback", "an event was delivered after the transport had been stopped");
    CHECK(!in_cb, "overlap", "two events are delivered at the same time");
    in_cb = 1;
    int k = ngot;
    while (k < nev && !E[k].nlines) k++;
    sim_log("client gets an event of %zu bytes, event %d is due: %.*s", n, k, (int)(n > 20 ? 20 : n), (const char *)p);
    CHECK(live >= 0, "invented", "an event is delivered before the server sent any");
    CHECK(k < upto, "invented", "an event is delivered that was not sent on this connection: %.*s", (int)(n > 40 ? 40 : n), (const char *)p);
    if (strlen(E[k].data) != n || memcmp(E[k].data, p, n)) {
        int w = -1;
        for (int i = 0; i < nev; i++) if (E[i].nlines && strlen(E[i].data) == n && !memcmp(E[i].data, p, n)) w = i;
        if (w < 0) sim_fail("damaged", "the data of event %d is delivered as %.*s (%zu bytes instead of %zu)", k, (int)(n > 40 ? 40 : n), (const char *)p, n, strlen(E[k].data));
        sim_fail(w < k ? "repeated" : "skipped", "event %d is delivered where event %d was due", w, k);
    }
    for (int i = ngot; i <= k; i++) if (E[i].id) { if (i == k) { lastid = k; nalt = 0; } else lastid_alt[nalt++] = i; }
    if (E[k].id) nalt = 0;
    ngot = k + 1;
    if (ngot > most) most = ngot;
    delivered[k]++;
    ndeliv++;
    sim_mark_nontrivial();
    sim_state(((u64)k << 8) | (u64)(nreconn > 5 ? 5 : nreconn));
    if (slow_cb && W(4) == 1) sim_sleep_ns(WR(1, slow_cb) * MS);
    CHECK(!stopped, "late-callback", "the transport was stopped while an event was being delivered");
    in_cb = 0;
    return 0;
}
static void on_err(void *ud, int code) { (void)ud; (void)code; CHECK(!stopped, "late-callback", "an error was reported after the transport had been stopped"); }

static void handle_events(int c, char *req) {
    char *h = strcasestr(req, "\r\nLast-Event-ID:");
    /* a request made before the present connection was may come late */
    if (live >= 0 && hnet_conn_id(hand[c]) < live_id) { sim_probe("late request"); return; }
    if (conn_open) { CHECK(!conn_open, "two-connections", "the client asks for events while it still uses a connection"); }
    /* what the client says it has got */
    int at = 0;
    if (h) {
        h += 16; while (*h == ' ') h++;
        char *e = strstr(h, "\r\n"); *e = 0;
        at = -1;
        for (int i = 0; i < nev; i++) if (E[i].id && !strcmp(E[i].id, h)) at = i;
        CHECK(at >= 0, "wrong-resume", "the client asks to resume after %s, no event has this id", h);
        int ok = at == lastid;
        for (int i = 0; i < nalt; i++) ok |= at == lastid_alt[i];
        /* events without data after the last delivered one */
        for (int i = ngot; live >= 0 && i < upto && !E[i].nlines; i++) ok |= at == i;
        CHECK(ok, "wrong-resume", "the client asks to resume after %s, the last event it delivered with an id is %s", h, lastid >= 0 ? E[lastid].id : "none");
        at++;
        sim_probe("resumed");
    } else CHECK(lastid < 0, "wrong-resume", "the client asks for all events though it has got %s", E[lastid].id);
    sim_log("connection %d: events from %d", c, at);
    if (live >= 0) nreconn++;
    live = c; live_id = hnet_conn_id(hand[c]);
    from = ngot = upto = sentfull = at;
    nalt = 0;
    if (h && at - 1 != lastid) { lastid_alt[nalt++] = at - 1; }
    static const char *hd[] = {"HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nCache-Control: no-cache\r\n\r\n",
        "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nConnection: keep-alive\r\nAccess-Control-Allow-Origin: *\r\nX-Data: data: none\r\n\r\n"};
    if (W(10) == 1) { put(c, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n", 54); sim_probe("service unavailable"); return; }
    if (!put(c, hd[W(2)], strlen(hd[0]) > 0 ? 0 : 0)) return;
    const char *hh = hd[W(2)];
    if (!put(c, hh, strlen(hh))) return;
    int style = (int)W(4);
    char *b = malloc(140000);
    for (int i = at; i <= nev; i++) {
        if (kill_all || live != c) break;
        if (i == nev) {                                     /* all sent; the connection stays */
            while (!over && !kill_all) {
                char x;
                long r = hnet_recv(hand[c], &x, 1, 300 * MS);
                if (r == 0 || r == -1) break;
                if (W(6) == 1) { const char *hb = ": heartbeat"; b[0] = 0; strcat(b, hb); strcat(b, line_end(style)); strcat(b, line_end(style == 3 ? 0 : style)); if (!put(c, b, strlen(b))) break; }
            }
            break;
        }
        if (W(4) == 1) sim_sleep_ns((W(8) ? WR(1, 50) : WR(100, 3000)) * MS);
        struct ev *e = &E[i];
        b[0] = 0;
        if (W(5) == 1) { strcat(b, ": comment data: x"); strcat(b, line_end(style)); if (W(2)) strcat(b, line_end(style)); sim_probe("comment"); }
        int idpos = (int)W(3);
        for (int p = 0; p < 3; p++) {
            if (p == idpos && e->id) { strcat(b, "id:"); if (W(4)) strcat(b, " "); strcat(b, e->id); strcat(b, line_end(style)); }
            if (p == 1) {
                char *d = strdup(e->data), *q = d;
                for (int k = 0; k < e->nlines; k++) {
                    char *nl = strchr(q, '\n');
                    if (nl) *nl = 0;
                    strcat(b, "data:"); if (*q == ' ' || W(4)) strcat(b, " ");
                    strcat(b, q); strcat(b, line_end(style));
                    if (nl) q = nl + 1;
                    if (W(12) == 1) { strcat(b, ":"); strcat(b, line_end(style)); }
                }
                free(d);
            }
            if (p == 0 && W(3) == 1) { strcat(b, W(2) ? "event: message" : "event:other"); strcat(b, line_end(style)); }
            if (p == 2 && W(8) == 1) { static const char *un[] = {"retry: 100", "unknown: data: x", "identity: 4", "dataset: 1", "events: z", "idx"}; strcat(b, un[W(6)]); strcat(b, line_end(style)); }
        }
        strcat(b, line_end(style));
        if (live != c) break;
        upto = i + 1;
        /* cut in the middle of an event */
        if (W(40) == 1) { put(c, b, W((u32)strlen(b))); sim_count_fault(DK_PEER); sim_probe("cut inside an event"); free(b); return; }
        if (!put(c, b, strlen(b))) break;
        if (live == c) sentfull = i + 1;
        if (W(60) == 1) { sim_count_fault(DK_PEER); break; }
    }
    free(b);
}
static int p_all(void *a) { (void)a; int k = ngot; while (k < nev && !E[k].nlines) k++; return k >= nev && live >= 0; }
static int p_cb(void *a) { (void)a; return !in_cb; }
static void do_stop(mcp_transport_t *tr) {
    u64 a = sim_now();
    int rc = mcp_transport_stop(tr);
    stopped = 1;
    u64 d = sim_now() - a, inj = sim_injected_since(a);
    sim_log("stop took %.3f s", (double)d / SEC);
    CHECK(rc == 0, "stop-failed", "stopping fails");
    CHECK(!in_cb, "late-callback", "stopping returned while an event is being delivered");
    CHECK(d <= tmo * MS + slow_cb * MS + 3 * SEC + maxlat + 3 * inj, "stop-slow", "stopping took %.1f s, %.1f s of delay was injected", (double)d / SEC, (double)inj / SEC);
}
static void run_events(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(6000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET));
    net_setup();
    memset(delivered, 0, sizeof delivered);
    nev = (int)CR(1, NEV); ngot = 0; live = -1; lastid = -1; nalt = 0; from = upto = sentfull = 0;
    conn_open = in_cb = stopped = ndeliv = most = nreconn = 0;
    static const u32 tm[] = {200, 1000, 3000, 10000};
    tmo = tm[C(4)];
    slow_cb = C(3) == 1 ? 400 : C(2) ? 5 : 0;
    for (int i = 0; i < nev; i++) mk_event(i);
    int acc = sim_spawn(acceptor, 0);
    if (C(4) == 1) want_up = 0; else sim_sleep_ns(20 * MS);
    mcp_http_client_config_t hc = {.host = "127.0.0.1", .port = PORT, .timeout_ms = tmo, .api_key = key};
    sim_nofault_begin();
    mcp_transport_t *tr = mcp_transport_http_client_create_with_config(&hc);
    sim_nofault_end();
    CHECK(tr, "create-failed", "the transport could not be created");
    int rc = mcp_transport_start(tr, on_msg, 0, on_err);
    CHECK(rc == 0, "start-failed", "the transport could not be started");
    int phases = (int)CR(0, 5);
    for (int p = 0; p < phases; p++) {
        sim_sleep_ns((W(3) ? WR(1, 200) : WR(200, 8000)) * MS);
        switch (W(7)) {
        case 0:                                                         /* connections end */
            kill_all = 1; sim_count_fault(DK_PEER);
            sim_wait_until(p_idle, 0, 5 * SEC);
            kill_all = 0;
            break;
        case 1:                                                         /* server away for a while */
            want_up = 0; kill_all = 1; sim_count_fault(DK_PEER);
            sim_sleep_ns(WR(10, 9000) * MS);
            sim_wait_until(p_idle, 0, 5 * SEC);
            kill_all = 0; want_up = 1;
            sim_probe("server away");
            break;
        case 2:
            sim_count_fault(DK_PARTITION);
            net_partition(1);
            sim_sleep_ns(WR(10, 3000) * MS);
            net_partition(0);
            break;
        case 3:                                                         /* stopped and started again */
            do_stop(tr);
            sim_sleep_ns(WR(0, 300) * MS);
            /* what the server still sends goes nowhere */
            stopped = 0;
            rc = mcp_transport_start(tr, on_msg, 0, on_err);
            CHECK(rc == 0, "start-failed", "the transport could not be started again");
            sim_probe("restarted");
            break;
        default: break;
        }
    }
    want_up = 1;
    if (C(3)) {
        /* everything gets there in the end */
        sim_faults_off();
        int ok = 0;
        for (int i = 0; i < 60 && !ok; i++) ok = sim_wait_until(p_all, 0, 20 * SEC);
        CHECK(ok, "lost", "event %d is not delivered though the server is reachable and has sent %d of %d events", ngot, sentfull, nev);
        sim_sleep_ns(2 * SEC);                              /* a repeated event would show up */
        /* no gap: every event with data was delivered, those with an id after which the client resumed once */
        for (int i = 0; i < nev; i++) if (E[i].nlines) CHECK(delivered[i], "lost", "event %d was never delivered", i);
        sim_probe("all delivered");
    }
    do_stop(tr);
    if (W(2)) sim_sleep_ns(WR(0, 7000) * MS);
    mcp_transport_destroy(tr);
    CHECK(net_open_sockets() == 0, "socket-leak", "%d sockets stay open after the transport is destroyed", net_open_sockets());
    sim_sleep_ns(100 * MS);
    net_over(acc);
    for (int i = 0; i < nev; i++) { free(E[i].data); free(E[i].id); }
}
HARNESS(http_events, "P17", "http-client-events", run_events,
        "HTTP client transport: SSE connection, event parser, reconnection, start and stop",
        "network, clock, threads; the server is a model that cuts its stream anywhere and resumes where it is asked to",
        "an event was delivered to the message callback", 1)
MEMORY_HARNESS(http_events_mem, "memory-http-client-events", run_events,
        "HTTP client transport: SSE connection, event parser, reconnection, start and stop",
        "network, clock, threads; the server is a model that cuts its stream anywhere and resumes where it is asked to", 1)

/* ======================= P24: calls ========================================== */
#define NREQ 120
enum { B_OK, B_ERR, B_WRONGID, B_JUNK, B_TRUNC, B_RESET, B_SILENT, B_LATE, B_NOTHING, B_STATUS };
static struct rq { char *text; int seen, behave, sent, code, used; u64 sent_at; u64 t0; } Q[NREQ];
static int nq;
static mcp_client_t *cl;

static void esc(char *o, const char *s) { while (*s) { if (*s == '"' || *s == '\\') *o++ = '\\'; if (*s == '\n') { *o++ = '\\'; *o++ = 'n'; s++; continue; } *o++ = *s++; } *o = 0; }
static char *mk_text(int q) {
    static const char *odd[] = {"plain", "a } brace", "{ open", "}} \" {{", "back\\slash \\\" {", "Content-Length: 3", "\xc3\xa9\xe2\x82\xac\xef\xbc\xa1 \b\f\t\r\n/", "line\nContent-Length: 2\nbreak", "[1,2]", "\\", "\"", "}"};
    char *t = malloc(96000);
    snprintf(t, 200, "V%d %s", q, odd[W(12)]);
    if (W(6) == 1) { size_t l = strlen(t); u32 n = W(12) ? WR(100, 20000) : WR(60000, 90000); if (n >= 60000) sim_probe("large response"); for (u32 i = 0; i < n; i++) t[l + i] = i % 61 == 60 ? '}' : (char)('a' + i % 26); t[l + n] = 0; }
    return t;
}
static void handle_call(int c, char *req, size_t have) {
    char *body = strstr(req, "\r\n\r\n") + 4, *cls = strcasestr(req, "\r\nContent-Length:");
    CHECK(cls && cls < body, "bad-request", "a request without length");
    size_t n = (size_t)atol(cls + 17), hl = (size_t)(body - req);
    CHECK(n < 30000, "bad-request", "a request of %zu bytes", n);
    while (have - hl < n && !over) {
        long r = hnet_recv(hand[c], req + have, 39000 - have, 200 * MS);
        if (r == -2) continue;
        if (r <= 0) return;
        have += (size_t)r;
    }
    if (have - hl < n) return;
    CHECK(have - hl == n, "bad-request", "a request of %zu bytes with %zu bytes of body", n, have - hl);
    req[have] = 0;
    char *t = strstr(body, "tok"), *ip = strstr(body, "\"rid\":");
    CHECK(t && body[0] == '{' && body[n - 1] == '}', "bad-request", "the server got %.60s", body);
    (void)ip;
    int q = atoi(t + 3);
    CHECK(q >= 0 && q < nq, "bad-request", "the server got request %d, there are %d", q, nq);
    struct rq *r = &Q[q];
    CHECK(!r->seen, "sent-twice", "request %d arrives twice", q);
    r->seen = 1;
    /* the id of the request is the one outside the parameters, which hold "id":"..." themselves */
    u64 id = 0;
    for (char *p = body; (p = strstr(p, "\"id\":")); p += 5) if (p[5] >= '0' && p[5] <= '9') id = strtoull(p + 5, 0, 10);
    CHECK(id, "bad-request", "request %d has no id", q);
    sim_log("server: request %d id %llu, behaviour %d", q, (unsigned long long)id, r->behave);
    u64 d = 0;
    switch (W(4)) { case 0: d = WR(1, 20) * MS; break; case 1: d = tmo * MS * WR(1, 60) / 100; break; default: break; }
    if (r->behave == B_LATE) d = tmo * MS * WR(90, 200) / 100;
    if (d) sim_sleep_ns(d);
    if (r->behave == B_SILENT) { if (W(2)) put(c, "HTTP/1.1 200 OK\r\nContent-Le", 27); for (int i = 0; i < 60 && !over; i++) sim_sleep_ns(tmo * MS / 3); return; }
    if (r->behave == B_RESET) { if (W(2)) put(c, "HTTP/1.1 200", 12); hnet_reset(hand[c]); closed_[c] = 1; return; }
    if (r->behave == B_NOTHING) return;
    char *e = malloc(200000), *b = malloc(210000), *m = malloc(220000);
    if (strchr(r->text, '\xc3') && strlen(r->text) < 25000) json_escape(e, 200000, r->text, (int)W(4)); else esc(e, r->text);
    if (r->behave == B_WRONGID) id += 1 + W(3);
    if (r->behave == B_ERR) snprintf(b, 210000, "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":%d,\"message\":\"%s\"},\"id\":%llu}", r->code, e, (unsigned long long)id);
    else switch (W(3)) {
    case 0: snprintf(b, 210000, "{\"id\":%llu,\"jsonrpc\":\"2.0\",\"result\":{\"content\":[{\"type\":\"text\",\"text\":\"%s\"}],\"isError\":false}}", (unsigned long long)id, e); break;
    case 1: snprintf(b, 210000, "{\"jsonrpc\":\"2.0\",\"result\":{\"content\":[{\"type\":\"text\",\"text\":\"%s\"}],\"isError\":false},\"id\":%llu}", e, (unsigned long long)id); break;
    default: snprintf(b, 210000, "{ \"jsonrpc\" : \"2.0\",\n \"result\" : { \"content\" : [ { \"type\":\"text\" , \"text\":\"%s\" } ] },\n \"id\" : %llu }", e, (unsigned long long)id);
    }
    if (r->behave == B_JUNK) { static const char *j[] = {"", "not json", "{", "[]", "null", "{\"jsonrpc\":\"2.0\"}", "{}}", "\"x\""}; strcpy(b, j[W(8)]); }
    if (W(3) == 1) strcat(b, W(2) ? "\n" : "\r\n");
    size_t bl = strlen(b), full = bl;
    if (r->behave == B_TRUNC && bl > 4) bl = 1 + W((u32)bl - 4);
    int st = r->behave == B_STATUS ? 500 : 200, haslen = W(4) != 1;
    int hl2 = snprintf(m, 220000, "HTTP/1.%d %d %s\r\n", W(6) ? 1 : 0, st, st == 200 ? "OK" : "Internal Server Error");
    if (W(3) == 1) for (u32 k = WR(1, 20); k; k--) hl2 += sprintf(m + hl2, "X-Header-%u: %.*s\r\n", k, (int)WR(1, 60), "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789");
    if (W(4) == 1) { static const char *near[] = {"X-Content-Length: 2", "Content-Language: en", "Content-Length-Limit: 7", "Server: x; Content-Length: 4"}; hl2 += sprintf(m + hl2, "%s\r\n", near[W(4)]); }
    if (W(2)) hl2 += sprintf(m + hl2, "Content-Type: application/json\r\n");
    if (haslen) hl2 += sprintf(m + hl2, "%s: %zu\r\n", W(2) ? "Content-Length" : "content-length", full);
    if (W(2)) hl2 += sprintf(m + hl2, "Connection: close\r\n");
    hl2 += sprintf(m + hl2, "\r\n");
    memcpy(m + hl2, b, bl);
    /* a server that thinks in the middle of its response */
    int think = W(5) == 1;
    if (put_paused(c, m, (size_t)hl2 + bl, W(2) ? (size_t)hl2 + W((u32)bl + 1) : W((u32)hl2), think ? tmo * MS * WR(5, 60) / 100 : 0)) {
        r->sent = 1; r->sent_at = sim_now(); gently[c] = 1;
        sim_log("server: response %d sent: %.300s", q, b);
        /* a server may leave the closing to the client if it told the length */
        if (haslen && W(3) == 1) { char x; for (int i = 0; i < 20 && !over; i++) { long z = hnet_recv(hand[c], &x, 1, tmo * MS / 4); if (z == 0 || z == -1) break; } }
    }
    free(b); free(e); free(m);
}
static void one_call(void) {
    if (nq >= NREQ) return;
    int q = nq++;
    struct rq *r = &Q[q];
    memset(r, 0, sizeof *r);
    r->text = mk_text(q);
    r->behave = W(3) ? B_OK : (int)W(10);
    r->code = -32000 - (int)W(90);
    char nm[24], *arg = malloc(8000);
    int kind = (int)W(3);
    snprintf(nm, sizeof nm, "tok%d", q);
    u32 fill = W(4) == 1 ? WR(1, 6000) : WR(0, 20);
    char *f = malloc(fill + 1);
    memset(f, 'p', fill); f[fill] = 0;
    snprintf(arg, 8000, "{\"id\":\"x%u\",\"fill\":\"%s\"}", fill, f);
    u64 a = sim_now();
    r->t0 = a;
    int failed0 = sim_alloc_failed();
    char *got = 0, *em = 0;
    mcp_error_code_t ec = 0;
    int rc, items = 1;
    bool ie = 0;
    sim_log("call %d starts (behaviour %d)", q, r->behave);
    mcp_content_item_t **co = 0; size_t n = 0;
    if (kind == 0) {
        rc = mcp_client_call_tool(cl, nm, W(3) ? arg : 0, &co, &n, &ie);
        if (!rc) { items = (int)n; got = n == 1 && co && co[0] ? strdup((char *)co[0]->data) : 0; for (size_t i = 0; i < n; i++) mcp_content_item_free(co[i]); free(co); }
    } else if (kind == 1) {
        char u[40];
        snprintf(u, sizeof u, "res://%s", nm);
        rc = mcp_client_read_resource(cl, u, &co, &n);
        /* the answer has no "contents": such a call cannot succeed */
        if (!rc) { items = (int)n; for (size_t i = 0; i < n; i++) mcp_content_item_free(co[i]); free(co); }
        CHECK(rc || n == 0, "wrong-response", "reading a resource returns %zu items, the server sent none", n);
        goto timing;
    } else {
        char p[8100], *res = 0;
        snprintf(p, sizeof p, "{\"name\":\"%s\",\"arguments\":%s}", nm, arg);
        rc = mcp_client_send_request(cl, "call_tool", p, &res, &ec, &em);
        if (!rc) {
            char *e = malloc(200000), *w = malloc(201000);
            esc(e, r->text);
            snprintf(w, 201000, "\"%s\"", e);
            /* the parser may write other characters escaped: compare what is surely the same */
            CHECK(res, "wrong-response", "call %d succeeded without a result", q);
            int plain = !strpbrk(r->text, "\"\\\n\xc3");
            char *v = strstr(res, "\"V");
            CHECK(v && atoi(v + 2) == q, "wrong-response", "call %d got the result %.60s", q, res);
            if (plain) CHECK(strstr(res, w), "wrong-response", "the result of call %d is not the one sent: %.60s, %.60s", q, res, w);
            free(e); free(w);
        }
        free(res);
    }
    sim_log("call %d ends: %d", q, rc);
    if (!rc) {
        CHECK(r->behave != B_ERR && r->behave != B_WRONGID && r->behave != B_JUNK && r->behave != B_TRUNC && r->behave != B_SILENT && r->behave != B_RESET && r->behave != B_NOTHING,
              "wrong-response", "call %d succeeded though the server sent no response to it", q);
        if (kind == 0) {
            CHECK(items == 1 && got, "wrong-response", "call %d: %d items instead of 1", q, items);
            CHECK(!strcmp(got, r->text), "wrong-response", "call %d got %.50s, the server sent %.50s", q, got, r->text);
            CHECK(!ie, "wrong-response", "call %d is told the tool failed", q);
        }
        sim_mark_nontrivial();
    } else {
        if (em && em[0] == 'V') CHECK(r->behave == B_ERR && !strcmp(em, r->text) && (int)ec == r->code, "wrong-response", "call %d got the error %d %.50s", q, (int)ec, em);
        u64 slack = 4 * maxlat + 200 * MS;
        if (r->behave == B_OK && !faulty && r->sent && r->sent_at + slack < a + tmo * MS && !sim_injected_since(a) && sim_alloc_failed() == failed0)
            sim_fail("good-response-lost", "call %d failed (%d %.40s) though the server answered it within %.0f of %u ms", q, (int)ec, em ? em : "", (double)(r->sent_at - a) / MS, tmo);
        if (r->behave == B_OK && !faulty && sim_now() - a + slack < tmo * MS && !sim_injected_since(a) && sim_alloc_failed() == failed0)
            sim_fail("failed-for-nothing", "call %d failed (%d %.40s) after %.0f of %u ms though nothing was wrong", q, (int)ec, em ? em : "", (double)(sim_now() - a) / MS, tmo);
        if (r->behave == B_ERR && kind == 2 && !faulty && r->sent && r->sent_at + slack < a + tmo * MS && !sim_injected_since(a) && sim_alloc_failed() == failed0)
            CHECK(em && em[0] == 'V', "good-response-lost", "call %d got %d %.40s instead of the server's error", q, (int)ec, em ? em : "");
        if (em && em[0] == 'V') sim_probe("error response");
    }
    if ((r->behave == B_OK || r->behave == B_ERR) && !faulty && r->sent && !sim_injected_since(a) && sim_alloc_failed() == failed0)
        CHECK(sim_now() <= r->sent_at + 4 * maxlat + 200 * MS, "not-prompt", "call %d returned %.0f ms after the whole response was sent", q, (double)(sim_now() - r->sent_at) / MS);
timing:
    free(got); free(em); free(arg); free(f);
    {
        u64 d = sim_now() - a, inj = sim_injected_since(a);
        CHECK(d <= 5 * tmo * MS + 2 * SEC + 2 * maxlat + 4 * inj, "call-slow", "call %d took %.1f s, the time-out is %u ms", q, (double)d / SEC, tmo);
    }
}
static void caller(void *a) {
    (void)a;
    int n = (int)WR(1, 10);
    sim_nofault_begin();
    mcp_arena_init_current_thread(4096);
    sim_nofault_end();
    for (int i = 0; i < n; i++) {
        if (W(3) == 1) sim_sleep_ns(WR(1, 60) * MS);
        one_call();
        mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}
static void run_calls(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(6000 * SEC, 4000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_RESET) | F(DK_DELAY) | F(DK_REFUSE) | F(DK_CONN_TIMEOUT) | F(DK_SOCKET) | F(DK_DNS) | F(DK_OOM));
    net_setup();
    nq = 0; nev = 0; live = -1; lastid = -1; ngot = upto = 0;
    static const u32 tm[] = {300, 1000, 1000, 5000};
    tmo = tm[C(4)];
    int acc = sim_spawn(acceptor, 0), tid[6];
    sim_sleep_ns(20 * MS);
    mcp_http_client_config_t hc = {.host = "127.0.0.1", .port = PORT, .timeout_ms = tmo, .api_key = key};
    sim_nofault_begin();
    mcp_transport_t *tr = mcp_transport_http_client_create_with_config(&hc);
    CHECK(tr, "create-failed", "the transport could not be created");
    mcp_client_config_t cc = {.request_timeout_ms = tmo};
    cl = mcp_client_create(&cc, tr);
    sim_nofault_end();
    CHECK(cl, "create-failed", "the client could not be created");
    int nt = (int)CR(1, 6);
    for (int i = 0; i < nt; i++) tid[i] = sim_spawn(caller, 0);
    for (int i = 0; i < nt; i++) {
        u64 a = sim_now();
        int ok = 0;
        for (int k = 0; k < 400 && !ok; k++) ok = sim_join_for(tid[i], 5 * SEC);
        CHECK(ok, "call-stuck", "a call does not return for %.0f s", (double)(sim_now() - a) / SEC);
    }
    mcp_client_destroy(cl);
    CHECK(net_open_sockets() == 0, "socket-leak", "%d sockets stay open after the client is destroyed", net_open_sockets());
    net_over(acc);
    for (int i = 0; i < nq; i++) free(Q[i].text);
    sim_state((u64)nt * 100 + (u64)(nq / 4));
}
HARNESS(http_calls, "P24", "http-client-calls", run_calls,
        "client library, HTTP client transport and its HTTP request code, JSON",
        "network, clock, threads, allocation; the HTTP server is a model that answers in pieces, late, wrongly or not at all",
        "a call returned with the response to its own request", 1)
MEMORY_HARNESS(http_calls_mem, "memory-http-client-calls", run_calls,
        "client library, HTTP client transport and its HTTP request code, JSON",
        "network, clock, threads, allocation; the HTTP server is a model that answers in pieces, late, wrongly or not at all", 2)
