/* P18: storing, delivering and replaying server-sent events, for the HTTP
 * transport and for the stream contexts of the streamable HTTP transport. */
#include "sim.h"
#include "lws_fake.h"
#include "internal/http_transport_internal.h"
#include "internal/sthttp_transport_internal.h"
#include <stdio.h>
#include <string.h>

#define NE 6400
typedef struct {
    int sess, type, kind;      /* addressee, event type (-1 none), data shape */
    u64 a, b;                  /* sending call                                */
    int ok;                    /* 0 pending, 1 sent, -1 refused               */
    long id;                   /* learned from any delivery                   */
} ev_t;
static ev_t E[NE];
static int ne;
static long by_id[NE + 16];    /* id -> event + 1 */
#define NCON 64
typedef struct {
    struct lws *w;
    int sess, filter;          /* -1 none */
    long last;                 /* id asked for, 0 none */
    u64 ca, cb, xa;            /* connect call, start of the close call */
    int nsent;                 /* events sent when the connection was closed */
    int bad;                   /* connection broke or could not be set up */
    int open;
} con_t;
static con_t con[NCON];
static int ncon;
static mcp_transport_t *tr;
static const char *const types[2][2] = {{"a", "b"}, {"notifications/changed", "notifications/changed2"}};
static const char *const names[2][3] = {{"s1", "s2", "s 3"}, {"session-0123456789abcdef-1", "session-0123456789abcdef-2", "session-0123456789abcdef 3"}};
static const char *const nargs[2][3] = {{"s1", "s2", "s%203"}, {"session-0123456789abcdef-1", "session-0123456789abcdef-2", "session-0123456789abcdef%203"}};
static const char *const *stype, *const *sname, *const *sarg;
static void pick_names(void) { u32 k = C(2); stype = types[k]; sname = names[k]; sarg = nargs[k]; }
static int replays, missed;

static void text(int k, char *d) {
    int n = sprintf(d, "e%d", k);
    switch (E[k].kind) {
    case 1: sprintf(d + n, "\nline two: of %d\n\ndata: x", k); break;
    case 2: memset(d + n, 'x', 900); d[n + 900] = 0; break;
    case 3: memset(d + n, 'y', 6000); d[n + 6000] = 0; break;
    case 4: sprintf(d + n, "\n"); break;
    }
}
static int data_kind(void) { static const int k[] = {0, 0, 0, 1, 2, 4}; return k[W(6)]; }

/* one parsed event of a stream; returns the number of bytes used, 0 at the end */
typedef struct { char type[64], data[8192]; long id; int nid, ntype, ndata; } pev_t;
static size_t parse(const char *s, size_t n, pev_t *e) {
    size_t i = 0, dl = 0;
    memset(e, 0, offsetof(pev_t, data));
    e->data[0] = 0; e->id = 0; e->nid = e->ntype = e->ndata = 0;
    while (i < n) {
        const char *nl = memchr(s + i, '\n', n - i);
        if (!nl) return 0;
        size_t l = (size_t)(nl - (s + i));
        const char *q = s + i;
        i += l + 1;
        if (!l) return i;
        if (*q == ':') continue;
        if (!strncmp(q, "id: ", 4)) { e->id = strtol(q + 4, 0, 10); e->nid++; }
        else if (!strncmp(q, "event: ", 7)) { snprintf(e->type, sizeof e->type, "%.*s", (int)l - 7, q + 7); e->ntype++; }
        else if (!strncmp(q, "data: ", 6)) {
            if (e->ndata++) e->data[dl++] = '\n';
            if (dl + l > sizeof e->data - 2) sim_fail("corrupt-event", "an event is longer than any that was sent");
            memcpy(e->data + dl, q + 6, l - 6); dl += l - 6; e->data[dl] = 0;
        } else sim_fail("corrupt-event", "a stream contains the line '%.*s'", (int)(l > 60 ? 60 : l), q);
    }
    return 0;
}
static pev_t pe;
/* every complete event of the stream must be one that was sent, whole */
static int identify(void) {
    int k = -1;
    static char want[8192];
    if (sscanf(pe.data, "e%d", &k) != 1 || k < 0 || k >= ne) sim_fail("corrupt-event", "a stream contains an event that was never sent: '%.60s'", pe.data);
    text(k, want);
    CHECK(!strcmp(want, pe.data), "corrupt-event", "event %d was delivered with other data: '%.60s'", k, pe.data);
    CHECK(pe.nid == 1 && pe.ntype == (E[k].type >= 0), "corrupt-event", "event %d was delivered with %d ids and %d types", k, pe.nid, pe.ntype);
    CHECK(E[k].type < 0 || !strcmp(pe.type, stype[E[k].type]), "corrupt-event", "event %d was delivered with type %s", k, pe.type);
    return k;
}
static int addressed(const con_t *c, int k) {
    return E[k].sess == c->sess && (c->filter < 0 || E[k].type < 0 || E[k].type == c->filter);
}
static void check_con(con_t *c, int audit) {
    size_t i = 0, u;
    long prev = 0;
    int got = 0, first = 1;
    static u8 seen[NE];
    memset(seen, 0, sizeof seen);
    while ((u = parse(c->w->out + i, c->w->len - i, &pe))) {
        i += u;
        if (!pe.nid && !pe.ntype && !pe.ndata) continue;            /* heartbeat */
        if (first && !pe.nid && !strcmp(pe.data, "connected")) { first = 0; continue; }
        int k = identify();
        CHECK(addressed(c, k) || c->bad == 2, "wrong-addressee", "event %d for session %d, type %d was delivered to a client of session %d, filter %d", k, E[k].sess, E[k].type, c->sess, c->filter);
        if (c->bad == 2 && E[k].sess != c->sess && E[k].sess >= 0) sim_fail("wrong-addressee", "event %d for session %d was delivered to a client of session %d", k, E[k].sess, c->sess);
        CHECK(pe.id > 0 && pe.id < NE + 16, "wrong-id", "event %d has id %ld", k, pe.id);
        CHECK(!E[k].id || E[k].id == pe.id, "wrong-id", "event %d was delivered with id %ld and with id %ld", k, E[k].id, pe.id);
        CHECK(!by_id[pe.id] || by_id[pe.id] == k + 1, "wrong-id", "events %d and %ld were delivered with the same id %ld", k, by_id[pe.id] - 1, pe.id);
        E[k].id = pe.id; by_id[pe.id] = k + 1;
        CHECK(!seen[k], "duplicate-event", "event %d was delivered twice on one connection", k);
        CHECK(pe.id > prev, "wrong-order", "event %d with id %ld was delivered after id %ld", k, pe.id, prev);
        CHECK(pe.id > c->last || E[k].b >= c->ca, "seen-event-replayed", "event %d with id %ld was delivered to a client that asked for those after %ld", k, pe.id, c->last);
        prev = pe.id;
        seen[k] = 1;
        got++;
    }
    CHECK(c->bad || i == c->w->len, "corrupt-event", "a stream ends within an event");
    if (audit || c->bad) return;
    for (int k = 0; k < c->nsent; k++) {
        if (seen[k] || !addressed(c, k) || E[k].ok != 1 || E[k].b >= c->xa) continue;
        if (c->last) {
            if (!E[k].id) continue;     /* no longer stored when the run ended */
            if (E[k].id <= c->last) continue;
            int later = 0;
            for (int j = 0; j < ne; j++) if (j != k && E[j].ok >= 0 && E[j].a < c->cb && E[j].b >= E[k].a) later++;
            if (later >= MAX_SSE_STORED_EVENTS && E[k].a <= c->cb) { missed++; continue; }
        } else if (E[k].a <= c->cb) continue;
        sim_fail("event-lost", "a client that connected with last id %ld at %.6f s did not receive event %d with id %ld sent at %.6f s",
                 c->last, (double)c->ca / SEC, k, E[k].id, (double)E[k].a / SEC);
    }
    if (c->last && got) replays++;
}
static void produce(int sess, int type, int kind) {
    if (ne >= NE) return;
    int k = ne++;
    static char buf[16][8192];
    char *d = buf[sim_self() % 16];
    E[k] = (ev_t){.sess = sess, .type = type, .kind = kind};
    text(k, d);
    u64 f = sim_alloc_failed();
    E[k].a = sim_now(); E[k].b = NEVER;
    int r = mcp_http_transport_send_sse(tr, type < 0 ? 0 : stype[type], d, sess < 0 ? 0 : sname[sess]);
    E[k].b = sim_now();
    E[k].ok = r == 0 ? 1 : -1;
    CHECK(r == 0 || sim_alloc_failed() != f, "send-refused", "sending event %d for session %d with type %d was refused", k, sess, type);
}
static void producer(void *arg) {
    int n = (int)(intptr_t)arg;
    for (int i = 0; i < n; i++) {
        produce((int)W(4) - 1, (int)W(3) - 1, data_kind());
        u32 k = W(6);
        if (k == 1) sim_sleep_ns((u64)WR(1, 50) * 1000);
        else if (k == 2) sim_sleep_ns((u64)WR(1, 5) * MS);
    }
}
static void connect_to(int sess, int filter, long last) {
    if (ncon >= NCON) return;
    con_t *c = &con[ncon++];
    memset(c, 0, sizeof *c);
    c->w = lws_fake_new(http_protocols[0].per_session_data_size);
    c->sess = sess; c->filter = filter; c->last = last; c->xa = NEVER;
    static char arg[NCON][200];
    char *p = arg[c - con];
    int n = 0;
    p[0] = 0;
    int order = (int)W(2);
    for (int j = 0; j < 3; j++) {
        int x = order ? 2 - j : j;
        const char *sep = n ? "&" : "";
        if (x == 0 && last) n += sprintf(p + n, "%slastEventId=%ld", sep, last);
        if (x == 1 && filter >= 0) n += sprintf(p + n, "%sfilter=%s", sep, stype[filter]);
        if (x == 2 && sess >= 0) n += sprintf(p + n, "%ssession_id=%s", sep, sarg[sess]);
    }
    c->w->uri = "/events"; c->w->args = n ? p : 0;
    u64 f = sim_alloc_failed();
    http_protocols[0].callback(c->w, LWS_CALLBACK_WSI_CREATE, c->w->user, 0, 0);
    c->ca = sim_now();
    int r = http_protocols[0].callback(c->w, LWS_CALLBACK_HTTP, c->w->user, (void *)"/events", 7);
    c->cb = sim_now();
    if (sim_alloc_failed() != f) c->bad = 2;
    else CHECK(r == 0 || c->w->broken, "connect-refused", "an event stream request was refused");
    c->open = 1;
}
static void disconnect(con_t *c) {
    c->xa = sim_now();
    http_protocols[0].callback(c->w, LWS_CALLBACK_CLOSED_HTTP, c->w->user, 0, 0);
    c->w->closed = 1;
    sim_free(c->w->user);
    c->w->user = 0;
    c->open = 0;
    c->nsent = ne;
    if (c->w->broken && !c->bad) c->bad = 1;
}
/* the last id a client has seen on a connection */
static long last_id(con_t *c) {
    size_t i = 0, u;
    long id = c->last;
    while ((u = parse(c->w->out + i, c->w->len - i, &pe))) { i += u; if (pe.nid) id = pe.id; }
    return id;
}
static void service(void *arg) {
    int n = (int)(intptr_t)arg;
    for (int i = 0; i < n; i++) {
        int op = -1, cl = -1;
        for (int j = 0; j < ncon; j++) {
            if (con[j].open) op = op < 0 || W(2) ? j : op;
            else cl = cl < 0 || W(2) ? j : cl;
        }
        u32 w = W(8);
        if (w < 2 && op >= 0) disconnect(&con[op]);
        else if (w < 5 && cl >= 0 && con[cl].bad != 2) {
            long l = last_id(&con[cl]);
            connect_to(con[cl].sess, con[cl].filter, l);
        }
        else if (w == 5) connect_to((int)W(4) - 1, (int)W(3) - 1, (long)WR(1, ne > 4000 && W(2) ? 60 : (u32)ne + 2));
        else if (w == 6) send_sse_heartbeat(tr->transport_data);
        else connect_to((int)W(4) - 1, (int)W(3) - 1, 0);
        u32 k = W(6);
        if (k == 1) sim_sleep_ns((u64)WR(1, 50) * 1000);
        else if (k == 2) sim_sleep_ns((u64)WR(1, 5) * MS);
        else if (k == 3) sim_sleep_ns(31 * SEC);
    }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    pick_names();
    sim_limit(4000 * SEC, 60000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_RESET));
    ne = ncon = replays = missed = 0;
    memset(by_id, 0, sizeof by_id);
    memset(con, 0, sizeof con);
    mcp_http_config_t cfg = {0};
    cfg.host = "127.0.0.1"; cfg.port = 8080; cfg.enable_cors = C(2);
    tr = mcp_transport_http_create(&cfg);
    if (!tr) { sim_probe("creation failed"); return; }
    lws_fake_ctx_user = tr->transport_data;
    int big = C(250) == 249;
    sim_nofault_begin();
    produce(-1, -1, 0);                     /* id 1, so that everything later can be asked for */
    if (big) {
        int n = (int)WR(4960, 5030);
        for (int i = 0; i < n; i++) produce(i % 17 ? (int)W(4) - 1 : -1, -1, 0);
    }
    sim_nofault_end();
    int n = (int)CR(1, 3), t[4], cnt = (int)CR(3, 25);
    t[3] = sim_spawn(service, (void *)(intptr_t)CR(3, 20));
    for (int i = 0; i < n; i++) t[i] = sim_spawn(producer, (void *)(intptr_t)cnt);
    for (int i = 0; i < n; i++) sim_join(t[i]);
    sim_join(t[3]);
    sim_faults_off();
    for (int j = 0; j < ncon; j++) if (con[j].open) disconnect(&con[j]);
    /* learn the ids of everything still stored */
    int base = ncon;
    if (ncon > NCON - 4) ncon = base = NCON - 4;
    for (int s = -1; s < 3; s++) { connect_to(s, -1, 1); disconnect(&con[ncon - 1]); }
    for (int j = base; j < ncon; j++) check_con(&con[j], 1);
    for (int i = 0; i < ne; i++) for (int j = 0; j < i && !big; j++)
        if (E[i].id && E[j].id && E[i].b < E[j].a) CHECK(E[i].id < E[j].id, "wrong-order", "event %d was sent before event %d began and has the later id", i, j);
    for (int j = 0; j < ncon; j++) check_con(&con[j], 0);
    mcp_transport_destroy(tr);
    for (int j = 0; j < ncon; j++) lws_fake_free(con[j].w);
    if (missed) sim_probe("events beyond the retention limit");
    if (replays) sim_probe("events replayed");
    if (replays > 4) sim_mark_nontrivial();
    sim_state((u64)ne << 16 | (u64)ncon << 8 | (u64)replays);
}
HARNESS(p18, "P18", "sse-http", run, "HTTP transport: event store, delivery, replay, connection callbacks; lock wrappers",
        "libwebsockets (recording stand-in), kernel threads, clocks, heap allocator",
        "events were replayed to reconnecting clients", 3)
MEMORY_HARNESS(p18_mem, "memory-sse-http", run,
        "HTTP transport: event store, delivery, replay, connection callbacks; lock wrappers",
        "libwebsockets (recording stand-in), kernel threads, clocks, heap allocator", 1)

/* ---- stream contexts ------------------------------------------------------- */
static sse_stream_context_t *ctx;
static int cap, autoid, stored;
static char ids[NE][24];
static void sproducer(void *arg) {
    int n = (int)(intptr_t)arg;
    for (int i = 0; i < n && ne < NE; i++) {
        int k = ne++;
        static char buf[16][8192];
        char *d = buf[sim_self() % 16];
        E[k] = (ev_t){.sess = -1, .type = (int)W(3) - 1, .kind = data_kind()};
        if (!W(8)) E[k].kind = 3;
        text(k, d);
        sprintf(ids[k], "%d", 100 + k);
        u64 f = sim_alloc_failed();
        E[k].a = sim_now(); E[k].b = NEVER;
        sse_stream_context_store_event(ctx, autoid ? 0 : ids[k], E[k].type < 0 ? 0 : stype[E[k].type], d);
        E[k].b = sim_now();
        E[k].ok = sim_alloc_failed() == f ? 1 : -1;
        if (W(6) == 1) sim_sleep_ns((u64)WR(1, 50) * 1000);
    }
}
/* one replay: the events after the given one, in storing order, and of those
 * stored before the replay began only the oldest may be missing */
static void replay(void) {
    char last[24] = "";
    int from = -1, use = (int)W(5);
    if (use && ne) {
        from = (int)W((u32)ne);
        if (autoid) { from = E[from].id ? from : -1; if (from >= 0) sprintf(last, "%ld", E[from].id); }
        else strcpy(last, ids[from]);
    }
    struct lws *w = lws_fake_new(0);
    u64 f = sim_alloc_failed();
    u64 a = sim_now();
    int r = sse_stream_context_replay_events(ctx, w, from < 0 ? 0 : last);
    u64 b = sim_now();
    int bad = w->broken || sim_alloc_failed() != f, got = 0, idx[64];
    size_t i = 0, u;
    long prev = 0;
    static u8 seen[NE];
    memset(seen, 0, sizeof seen);
    while ((u = parse(w->out + i, w->len - i, &pe))) {
        i += u;
        int k = identify();
        CHECK(!E[k].id || E[k].id == pe.id, "wrong-id", "event %d was replayed with id %ld and with id %ld", k, E[k].id, pe.id);
        if (!autoid) CHECK(pe.id == 100 + k, "wrong-id", "event %d was stored with id %d and replayed with id %ld", k, 100 + k, pe.id);
        else {
            CHECK(pe.id > 0 && pe.id < NE + 16 && (!by_id[pe.id] || by_id[pe.id] == k + 1), "wrong-id", "two events have the id %ld", pe.id);
            CHECK(pe.id > prev, "wrong-order", "id %ld was replayed after %ld", pe.id, prev);
            by_id[pe.id] = k + 1;
        }
        prev = E[k].id = pe.id;
        CHECK(!seen[k], "duplicate-event", "event %d was replayed twice", k);
        seen[k] = 1;
        CHECK(E[k].a <= b, "corrupt-event", "event %d was replayed before it was stored", k);
        for (int j = 0; j < got; j++) CHECK(E[k].b > E[idx[j]].a, "wrong-order", "event %d was replayed after event %d which was stored later", k, idx[j]);
        CHECK(got < cap && got < 64, "too-many-events", "%d events were replayed, %d can be stored", got + 1, cap);
        idx[got++] = k;
    }
    if (sim_verbose) for (int j = 0; j < got; j++) sim_log("replayed %d of cap %d after %s", idx[j], cap, last);
    CHECK(bad || r == got, "wrong-count", "%d events were replayed, %d reported", got, r);
    if (bad) { lws_fake_free(w); return; }
    for (int k = 0; k < ne; k++) {
        if (E[k].ok != 1 || E[k].b > a) continue;
        /* how many events may have displaced it */
        int later = 0, flater = 0, gone = 0;
        for (int j = 0; j < ne; j++) if (j != k && E[j].a <= b && E[j].b >= E[k].a) later++;
        if (from >= 0) for (int j = 0; j < ne; j++) {
            if (j != from && E[j].a <= b && E[j].b >= E[from].a) flater++;
            if (E[j].ok == 1 && E[j].a > E[from].b && E[j].b < a) gone++;
        }
        int must = later < cap;
        if (from >= 0 && gone < cap && !(E[k].a > E[from].b)) must = 0;   /* not certainly after the given one */
        CHECK(seen[k] || !must, "event-lost", "event %d was not replayed after '%s', at most %d events were stored later, %d can be stored", k, last, later, cap);
        if (from >= 0 && seen[k] && E[from].ok == 1 && E[from].b < a && flater < cap)
            CHECK(k != from && E[k].b > E[from].a, "seen-event-replayed", "event %d was replayed to a client that saw event %d", k, from);
    }
    if (from >= 0 && got) replays++;
    if (from >= 0 && got && got < cap) stored++;
    lws_fake_free(w);
}
static void replayer(void *arg) {
    int n = (int)(intptr_t)arg;
    for (int i = 0; i < n; i++) {
        replay();
        u32 k = W(4);
        if (k == 1) sim_sleep_ns((u64)WR(1, 50) * 1000);
        else if (k == 2) sim_sleep_ns((u64)WR(1, 5) * MS);
    }
}
static void srun(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    pick_names();
    sim_limit(4000 * SEC, 20000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_RESET));
    ne = replays = stored = 0;
    memset(by_id, 0, sizeof by_id);
    static const int caps[] = {1, 2, 3, 5, 8, 32};
    cap = caps[C(6)]; autoid = (int)C(2);
    ctx = sse_stream_context_create((size_t)cap);
    if (!ctx) { sim_probe("creation failed"); return; }
    int n = (int)CR(1, 3), m = (int)CR(1, 2), t[5], cnt = (int)CR(2, 40);
    for (int i = 0; i < n; i++) t[i] = sim_spawn(sproducer, (void *)(intptr_t)cnt);
    for (int i = 0; i < m; i++) t[n + i] = sim_spawn(replayer, (void *)(intptr_t)CR(2, 15));
    for (int i = 0; i < n + m; i++) sim_join(t[i]);
    sim_faults_off();
    for (int i = 0; i < 12; i++) replay();
    sse_stream_context_destroy(ctx);
    if (stored) sim_probe("replay from a stored event");
    if (replays > 2 && ne > cap) { sim_probe("store wrapped"); sim_mark_nontrivial(); }
    sim_state((u64)ne << 16 | (u64)replays << 8 | (u64)cap);
}
HARNESS(p18b, "P18", "sse-streams", srun, "stream contexts of the streamable HTTP transport: store, index, replay, event writer; lock wrappers",
        "libwebsockets (recording stand-in), kernel threads, clocks, heap allocator",
        "the store wrapped around and events were replayed from an id", 1)
