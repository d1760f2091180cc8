/* Simulated descriptors: TCP sockets, pipes, files (files are in disk.c). */
#define _GNU_SOURCE
#include "core.h"
#include "io.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

typedef struct { u64 t; u32 n; } chunk_t;
typedef struct {                 /* data on the way to one side */
    u8 *buf; size_t head, len, cap;
    chunk_t *ch; int nch, capch; /* chunks not yet arrived, in order */
    size_t arrived;              /* bytes the side can read now */
    u64 last_t;
    u64 fin_at, rst_at;          /* NEVER: not sent */
    int fin_seen, rst_seen;
    int reader_gone;             /* side closed its socket completely */
} dir_t;
typedef struct sock sock_t;
typedef struct { int id; dir_t d[2]; sock_t *end[2]; int port; int refs; } conn_t;

enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONN, S_FAILED };
struct sock {
    int refs;                    /* table entries plus calls in progress */
    int closed;                  /* no table entry any more */
    int state, nonblock, harness, port, backlog;
    u64 rcvto, sndto;
    conn_t *c; int side;
    conn_t *q[128]; int nq;
    u64 done_at;                 /* connect completes */
    u64 started;
    int doomed;                  /* errno the attempt will end with, -1 never answered */
    int so_error;
    int shut_rd, shut_wr;
    int linger0;
    int err_reported;
};
typedef struct { u8 buf[65536]; size_t len; int readers, writers; } pipe_t;

static fdent_t fdt[MAXFD];
static sock_t *ht[4096]; static int nht;           /* harness handles */
static sock_t *pending[256]; static int npending;  /* connecting */
static sock_t *listeners[64]; static int nlist;
static int part_on, conn_ids;
static u64 lat_lo = 50000, lat_hi = 200000;
static u32 sndcap = 65536;
static int refuse_port[16], nrefuse;
static int sigpipe_ignored;
static u64 bytes_sent;

void net_init(void) { memset(fdt, 0, sizeof fdt); for (int i = 0; i < 3; i++) fdt[i].kind = K_STD; }
void net_config(u64 lo, u64 hi, u32 cap) { lat_lo = lo; lat_hi = hi; sndcap = cap; }
u64 net_bytes_sent(void) { return bytes_sent; }
fdent_t *fd_get(int fd) { if (fd < 0 || fd >= MAXFD || fdt[fd].kind == K_NONE) { errno = EBADF; return 0; } return &fdt[fd]; }
int fd_alloc(int kind, void *obj) {
    for (int i = 3; i < MAXFD; i++) if (fdt[i].kind == K_NONE) { fdt[i].kind = kind; fdt[i].obj = obj; fdt[i].flags = 0; return i; }
    errno = EMFILE;
    return -1;
}
int net_open_sockets(void) { int n = 0; for (int i = 3; i < MAXFD; i++) n += fdt[i].kind != K_NONE; return n; }
int net_fd_open(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd].kind != K_NONE; }

/* ---- connection plumbing ---- */
static u64 latency(void) {
    u64 l = lat_lo;
    u32 v = cur ? sim_fault_n(DK_DELAY, 7) : 0;
    if (v) { static const u64 x[] = {200000, 1 * MS, 5 * MS, 20 * MS, 100 * MS, 400 * MS, 1500 * MS}; l += x[v - 1]; }
    else l = (lat_lo + lat_hi) / 2;
    return l;
}
static void pump(dir_t *d) {     /* move arrived chunks */
    if (part_on) return;
    u64 now = sim_now();
    int k = 0;
    while (k < d->nch && d->ch[k].t <= now) { d->arrived += d->ch[k].n; k++; }
    if (k) { memmove(d->ch, d->ch + k, sizeof *d->ch * (size_t)(d->nch - k)); d->nch -= k; }
    if (!d->nch && d->fin_at <= now) d->fin_seen = 1;
    if (d->rst_at <= now) { if (!d->rst_seen) { d->rst_seen = 1; d->len = d->arrived; d->nch = 0; } }
}
static void dir_put(dir_t *d, const void *p, size_t n, u64 t) {
    if (d->rst_at != NEVER) return;                    /* the connection is gone, the writer does not know yet */
    if (t < d->last_t) t = d->last_t;
    d->last_t = t;
    if (d->head + d->len + n > d->cap) {
        if (d->head) { memmove(d->buf, d->buf + d->head, d->len); d->head = 0; }
        if (d->len + n > d->cap) { d->cap = (d->len + n) * 2; d->buf = realloc(d->buf, d->cap); }
    }
    memcpy(d->buf + d->head + d->len, p, n);
    d->len += n;
    if (d->nch == d->capch) { d->capch = d->capch ? d->capch * 2 : 8; d->ch = realloc(d->ch, sizeof *d->ch * (size_t)d->capch); }
    d->ch[d->nch].t = t; d->ch[d->nch].n = (u32)n; d->nch++;
    sim_event_at(t);
}
static void send_fin(conn_t *c, int to) {
    dir_t *d = &c->d[to];
    if (d->fin_at != NEVER) return;
    u64 t = sim_now() + lat_lo;
    if (t < d->last_t) t = d->last_t;
    d->last_t = t;
    d->fin_at = t;
    sim_event_at(t);
}
static void send_rst(conn_t *c, int to, u64 delay) {
    dir_t *d = &c->d[to];
    if (d->rst_at != NEVER) return;
    d->rst_at = sim_now() + delay;
    sim_event_at(d->rst_at);
}
static conn_t *conn_new(void) {
    conn_t *c = calloc(1, sizeof *c);
    c->id = ++conn_ids;
    for (int i = 0; i < 2; i++) c->d[i].fin_at = c->d[i].rst_at = NEVER;
    return c;
}
static sock_t *sock_new(void) { sock_t *s = calloc(1, sizeof *s); s->rcvto = s->sndto = NEVER; s->refs = 1; return s; }

static sock_t *find_listener(int port) {
    for (int i = 0; i < nrefuse; i++) if (refuse_port[i] == port) return 0;
    for (int i = 0; i < nlist; i++) if (listeners[i]->port == port && !listeners[i]->closed) return listeners[i];
    return 0;
}
void net_listen_refuse(int port, int on) {
    for (int i = 0; i < nrefuse; i++) if (refuse_port[i] == port) { if (!on) refuse_port[i] = refuse_port[--nrefuse]; return; }
    if (on && nrefuse < 16) refuse_port[nrefuse++] = port;
}
static void connect_done(sock_t *s) {
    for (int i = 0; i < npending; i++) if (pending[i] == s) { pending[i] = pending[--npending]; return; }
}
static void progress(void) {     /* complete connection attempts that are due */
    u64 now = sim_now();
    for (int i = 0; i < npending;) {
        sock_t *s = pending[i];
        if (now < s->done_at) { i++; continue; }
        if (now >= s->started + 127 * SEC) { s->so_error = ETIMEDOUT; s->state = S_FAILED; connect_done(s); continue; }
        if (part_on || s->doomed == -1) { i++; continue; }
        if (s->doomed) { s->so_error = s->doomed; s->state = S_FAILED; connect_done(s); continue; }
        sock_t *l = find_listener(s->port);
        if (!l) { s->so_error = ECONNREFUSED; s->state = S_FAILED; connect_done(s); continue; }
        if (l->nq >= l->backlog || l->nq >= 128) { s->done_at = now + 200 * MS; sim_event_at(s->done_at); i++; continue; }
        conn_t *c = conn_new();
        c->port = s->port;
        c->end[0] = s; c->refs = 2;
        s->c = c; s->side = 0; s->state = S_CONN;
        l->q[l->nq++] = c;
        connect_done(s);
    }
}
void net_partition(int on) {
    if (on != part_on) { sim_hash(0x990 + (u64)on); if (on) sim_count_fault(DK_PARTITION); }
    part_on = on;
    if (!on) sim_event_at(sim_now());
}

/* last reference to one side gone */
static void side_gone(conn_t *c, int side, int abort) {
    dir_t *in = &c->d[side];
    pump(in);
    in->reader_gone = 1;
    int unread = in->arrived > 0;
    if (abort || (unread && !in->rst_seen)) send_rst(c, 1 - side, lat_lo);
    else send_fin(c, 1 - side);
    c->end[side] = 0;
}
static void sock_free(sock_t *s) {
    if (s->state == S_LISTEN) {
        for (int i = 0; i < nlist; i++) if (listeners[i] == s) { listeners[i] = listeners[--nlist]; break; }
        for (int i = 0; i < s->nq; i++) side_gone(s->q[i], 1, 1);
    }
    if (s->state == S_CONNECTING) connect_done(s);
    if (s->c) side_gone(s->c, s->side, s->linger0);
    s->state = S_FAILED;
    s->c = 0;
    /* the struct itself is kept: the process is short-lived */
}
static void sock_unref(sock_t *s) { if (--s->refs == 0) sock_free(s); }

/* ---- readiness ---- */
static int rd_ready(sock_t *s) {
    progress();
    if (s->state == S_LISTEN) return s->nq > 0 || s->shut_rd;
    if (s->state == S_CONNECTING) return 0;
    if (s->state != S_CONN) return 1;
    if (s->shut_rd) return 1;
    dir_t *d = &s->c->d[s->side];
    pump(d);
    return d->arrived > 0 || d->fin_seen || d->rst_seen;
}
static size_t wr_space(sock_t *s) {
    dir_t *o = &s->c->d[1 - s->side];
    return o->len < sndcap ? sndcap - o->len : 0;
}
static int wr_ready(sock_t *s) {
    progress();
    if (s->state == S_CONNECTING) return 0;
    if (s->state != S_CONN) return 1;
    if (s->shut_wr) return 1;
    dir_t *d = &s->c->d[s->side];
    pump(d);
    pump(&s->c->d[1 - s->side]);
    if (d->rst_seen) return 1;
    return wr_space(s) > 0 || s->c->d[1 - s->side].reader_gone;
}
static int p_rd(void *a) { return rd_ready(a); }
static int p_wr(void *a) { return wr_ready(a); }
static int hup(sock_t *s) {
    if (s->state == S_FAILED) return 1;
    if (s->state != S_CONN) return 0;
    dir_t *d = &s->c->d[s->side];
    pump(d);
    return d->rst_seen || (d->fin_seen && s->c->d[1 - s->side].fin_at != NEVER);
}

/* ---- core operations on socket objects ---- */
static void inject_reset(sock_t *s) {
    conn_t *c = s->c;
    for (int i = 0; i < 2; i++) {
        dir_t *d = &c->d[i];
        pump(d);
        d->len = d->arrived; d->nch = 0;
        if (d->rst_at == NEVER) d->rst_at = sim_now();
    }
    sim_event_at(sim_now());
}
static long do_send(sock_t *s, const void *p, size_t n, int flags, int faults) {
    u64 dl = s->sndto == NEVER ? NEVER : sim_now() + s->sndto;
    size_t sent = 0;
    int nb = s->nonblock || (flags & MSG_DONTWAIT);
#define GIVE_UP(e, r) do { if (sent) return (long)sent; errno = (e); return (r); } while (0)
    for (;;) {
        progress();
        if (s->state == S_CONNECTING) { errno = EAGAIN; return -1; }
        if (s->state != S_CONN) { int e = s->so_error; s->so_error = 0; if (e) GIVE_UP(e, -1); GIVE_UP(EPIPE, -2); }
        conn_t *c = s->c;
        dir_t *in = &c->d[s->side];
        pump(in);
        if (in->rst_seen || s->shut_wr) {
            if (sent) return (long)sent;
            if (in->rst_seen && !s->err_reported) { s->err_reported = 1; errno = ECONNRESET; return -1; }
            errno = EPIPE;
            return -2;
        }
        dir_t *o = &c->d[1 - s->side];
        pump(o);
        if (faults && !part_on && sim_fault(DK_RESET)) { inject_reset(s); s->err_reported = 1; pump(in); GIVE_UP(ECONNRESET, -1); }
        if (o->reader_gone) { send_rst(c, s->side, lat_lo * 2); bytes_sent += n - sent; return (long)n; } /* goes nowhere, answered by RST */
        size_t room = wr_space(s);
        if (sent == n) return (long)sent;
        if (room) {
            size_t k = n - sent < room ? n - sent : room;
            u32 v = 0;
            if (faults && k > 1) {
                v = sim_fault_n(DK_SHORT_SEND, 4);
                if (v == 1) k = 1;
                else if (v == 2) k = k / 2;
                else if (v == 3) k = k > 3 ? 3 : 1;
                else if (v == 4) k = k - 1;
            }
            dir_put(o, (const u8 *)p + sent, k, sim_now() + latency());
            bytes_sent += k;
            sent += k;
            if (v || nb || sent == n) return (long)sent;
            continue;
        }
        if (nb) GIVE_UP(EAGAIN, -1);
        if (sim_now() >= dl) GIVE_UP(EAGAIN, -1);
        if (faults && sim_fault(DK_EINTR)) GIVE_UP(EINTR, -1);
        s->refs++;
        sim_block(p_wr, s, dl);
        sock_unref(s);
    }
}
static long do_recv(sock_t *s, void *p, size_t n, int flags, int faults) {
    u64 dl = s->rcvto == NEVER ? NEVER : sim_now() + s->rcvto;
    for (;;) {
        progress();
        if (s->state == S_CONNECTING) { errno = EAGAIN; return -1; }
        if (s->state == S_LISTEN || s->state == S_NEW) { errno = ENOTCONN; return -1; }
        if (s->state != S_CONN) { if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; } return 0; }
        dir_t *d = &s->c->d[s->side];
        pump(d);
        if (faults && !part_on && sim_fault(DK_RESET)) inject_reset(s), pump(d);
        if (d->arrived) {
            size_t k = n < d->arrived ? n : d->arrived;
            if (faults && k > 1 && !(flags & MSG_PEEK)) {
                u32 v = sim_fault_n(DK_SHORT_RECV, 4);
                if (v == 1) k = 1;
                else if (v == 2) k = k / 2;
                else if (v == 3) k = k > 3 ? 3 : 1;
                else if (v == 4) k = k - 1;
            }
            memcpy(p, d->buf + d->head, k);
            if (!(flags & MSG_PEEK)) { d->head += k; d->len -= k; d->arrived -= k; if (!d->len) d->head = 0; }
            return (long)k;
        }
        if (s->shut_rd) return 0;
        if (d->rst_seen) { if (!s->err_reported) { s->err_reported = 1; errno = ECONNRESET; return -1; } return 0; }
        if (d->fin_seen) return 0;
        if (!n) return 0;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        if (sim_now() >= dl) { errno = EAGAIN; return -1; }
        if (faults && sim_fault(DK_EINTR)) { errno = EINTR; return -1; }
        s->refs++;
        sim_block(p_rd, s, dl);
        sock_unref(s);
    }
}

/* ---- system call seams ---- */
static sock_t *get_sock(int fd) {
    fdent_t *e = fd_get(fd);
    if (!e) return 0;
    if (e->kind != K_SOCK) { errno = ENOTSOCK; return 0; }
    return e->obj;
}
#define SYS() do { sim_point(OP_SYS, 0); sim_cost(500); } while (0)

int sim_socket(int d, int t, int p) {
    (void)d; (void)p;
    SYS();
    u32 v = sim_fault_n(DK_SOCKET, 2);
    if (v) { errno = v == 1 ? EMFILE : ENOBUFS; return -1; }
    sock_t *s = sock_new();
    s->nonblock = (t & SOCK_NONBLOCK) != 0;
    int fd = fd_alloc(K_SOCK, s);
    sim_hash(0x100 + (u64)fd);
    return fd;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
    (void)l;
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    int port = ntohs(((const struct sockaddr_in *)(const void *)a)->sin_port);
    for (int i = 0; i < nlist; i++) if (listeners[i]->port == port) { errno = EADDRINUSE; return -1; }
    s->port = port;
    return 0;
}
int sim_listen(int fd, int backlog) {
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    s->state = S_LISTEN;
    s->backlog = backlog > 0 ? (backlog < 128 ? backlog : 128) : 1;
    if (nlist < 64) listeners[nlist++] = s;
    return 0;
}
static void fill_addr(struct sockaddr *a, socklen_t *l, int port) {
    if (!a || !l) return;
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET; in.sin_port = htons((u16)port); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &in, *l < sizeof in ? *l : sizeof in);
    *l = sizeof in;
}
static sock_t *take_conn(sock_t *l) {
    conn_t *c = l->q[0];
    memmove(l->q, l->q + 1, sizeof l->q[0] * (size_t)(l->nq - 1));
    l->nq--;
    sock_t *n = sock_new();
    n->state = S_CONN; n->c = c; n->side = 1; n->port = l->port; n->harness = l->harness;
    c->end[1] = n;
    return n;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) {
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    for (;;) {
        progress();
        if (s->state != S_LISTEN || s->shut_rd) { errno = EINVAL; return -1; }
        if (s->nq) {
            u32 v = sim_fault_n(DK_ACCEPT, 3);
            if (v == 1) { errno = EMFILE; return -1; }
            if (v == 2) { conn_t *c = take_conn(s)->c; side_gone(c, 1, 1); errno = ECONNABORTED; return -1; }
            if (v == 3) { errno = EINTR; return -1; }
            sock_t *n = take_conn(s);
            int nf = fd_alloc(K_SOCK, n);
            if (nf < 0) { sock_unref(n); return -1; }
            fill_addr(a, l, 40000 + n->c->id % 20000);
            sim_hash(0x200 + (u64)nf);
            return nf;
        }
        if (s->nonblock) { errno = EAGAIN; return -1; }
        s->refs++;
        sim_block(p_rd, s, NEVER);
        int gone = s->closed;
        sock_unref(s);
        if (gone) { errno = EBADF; return -1; }
    }
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { int r = sim_accept(fd, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) get_sock(r)->nonblock = 1; return r; }
static int p_conn(void *a) { progress(); return ((sock_t *)a)->state != S_CONNECTING; }
static void start_connect(sock_t *s, int port, int faults) {
    s->port = port;
    s->state = S_CONNECTING;
    s->started = sim_now();
    s->done_at = sim_now() + 2 * (faults ? latency() : lat_lo);
    s->doomed = 0;
    if (faults && sim_fault(DK_REFUSE)) s->doomed = ECONNREFUSED;
    else if (faults && sim_fault(DK_CONN_TIMEOUT)) s->doomed = -1;
    sim_event_at(s->done_at);
    sim_event_at(s->started + 127 * SEC);
    if (npending < 256) pending[npending++] = s;
    else { s->state = S_FAILED; s->so_error = ENOBUFS; }
}
static u64 conn_log[256];
static u32 conn_n;
u32 net_connects(void) { return conn_n; }
u64 net_connect_at(u32 i) { return i < conn_n && i + 256 >= conn_n ? conn_log[i % 256] : 0; }
int sim_connect(int fd, const struct sockaddr *a, socklen_t l) {
    (void)l;
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    if (s->state == S_CONN) { errno = EISCONN; return -1; }
    if (s->state == S_CONNECTING) { errno = EALREADY; return -1; }
    conn_log[conn_n++ % 256] = sim_now();
    start_connect(s, ntohs(((const struct sockaddr_in *)(const void *)a)->sin_port), 1);
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    s->refs++;
    if (!p_conn(s)) sim_block(p_conn, s, s->sndto == NEVER || !s->sndto ? NEVER : sim_now() + s->sndto);
    int ok = s->state == S_CONN, e = s->so_error, busy = s->state == S_CONNECTING;
    sock_unref(s);
    if (ok) return 0;
    if (busy) { errno = EINPROGRESS; return -1; }
    s->so_error = 0;
    errno = e ? e : ECONNABORTED;
    return -1;
}
static long sigpipe(long r, int flags, sock_t *s) {
    if (r == -2) {
        if (!(flags & MSG_NOSIGNAL) && !sigpipe_ignored && !s->harness)
            sim_fail("sigpipe", "process would be killed by SIGPIPE: write to a broken connection without MSG_NOSIGNAL");
        errno = EPIPE;
        return -1;
    }
    return r;
}
long sim_send(int fd, const void *p, size_t n, int flags) {
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    sim_check_range(p, n, 0, "send");
    long r = sigpipe(do_send(s, p, n, flags, 1), flags, s);
    sim_hash(0x300 + (u64)r);
    return r;
}
long sim_recv(int fd, void *p, size_t n, int flags) {
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    sim_check_range(p, n, 1, "recv");
    size_t got = 0;
    for (;;) {
        long r = do_recv(s, (u8 *)p + got, n - got, flags, 1);
        sim_hash(0x400 + (u64)r);
        if (r <= 0) return got ? (long)got : r;
        got += (size_t)r;
        if (!(flags & MSG_WAITALL) || got == n) return (long)got;
    }
}
long sim_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return sim_send(fd, p, n, fl); }
long sim_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return sim_recv(fd, p, n, fl); }

static int pipe_rd(void *a) { pipe_t *p = a; return p->len > 0 || !p->writers; }
static int pipe_wr(void *a) { pipe_t *p = a; return p->len < sizeof p->buf || !p->readers; }
int sim_pipe(int f[2]) {
    SYS();
    if (sim_fault(DK_SOCKET)) { errno = EMFILE; return -1; }
    pipe_t *p = calloc(1, sizeof *p);
    p->readers = p->writers = 1;
    f[0] = fd_alloc(K_PIPE_R, p);
    f[1] = fd_alloc(K_PIPE_W, p);
    return 0;
}
int sim_pipe2(int f[2], int fl) { int r = sim_pipe(f); if (!r && (fl & O_NONBLOCK)) fdt[f[0]].flags |= O_NONBLOCK, fdt[f[1]].flags |= O_NONBLOCK; return r; }

long disk_read(int fd, void *p, size_t n);
long disk_write(int fd, const void *p, size_t n);
int disk_close(int fd);

long sim_read(int fd, void *p, size_t n) {
    fdent_t *e = fd_get(fd);
    if (e && e->kind == K_SOCK) return sim_recv(fd, p, n, 0);
    SYS();
    e = fd_get(fd);
    if (!e) return -1;
    sim_check_range(p, n, 1, "read");
    if (e->kind == K_PIPE_R) {
        pipe_t *q = e->obj;
        if (!q->len && q->writers) {
            if (e->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            sim_block(pipe_rd, q, NEVER);
        }
        size_t k = n < q->len ? n : q->len;
        memcpy(p, q->buf, k);
        memmove(q->buf, q->buf + k, q->len - k);
        q->len -= k;
        return (long)k;
    }
    return disk_read(fd, p, n);
}
long sim_write(int fd, const void *p, size_t n) {
    fdent_t *e = fd_get(fd);
    if (e && e->kind == K_SOCK) return sim_send(fd, p, n, 0);
    SYS();
    e = fd_get(fd);
    if (!e) return -1;
    sim_check_range(p, n, 0, "write");
    if (e->kind == K_PIPE_W) {
        pipe_t *q = e->obj;
        if (!q->readers) { errno = EPIPE; return -1; }
        if (q->len == sizeof q->buf) {
            if (e->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            sim_block(pipe_wr, q, NEVER);
        }
        size_t k = sizeof q->buf - q->len;
        if (k > n) k = n;
        memcpy(q->buf + q->len, p, k);
        q->len += k;
        return (long)k;
    }
    return disk_write(fd, p, n);
}
long sim_writev(int fd, const struct iovec *v, int nv) {
    if (nv < 0 || nv > 1024) { errno = EINVAL; return -1; }
    sim_check_range(v, sizeof *v * (size_t)nv, 0, "writev");
    size_t tot = 0;
    for (int i = 0; i < nv; i++) tot += v[i].iov_len;
    u8 *b = malloc(tot + 1);
    size_t o = 0;
    for (int i = 0; i < nv; i++) { sim_check_range(v[i].iov_base, v[i].iov_len, 0, "writev"); if (v[i].iov_len) memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    long r = sim_write(fd, b, tot);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
long sim_sendmsg(int fd, const struct msghdr *m, int flags) {
    if (m->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
    sim_check_range(m->msg_iov, sizeof *m->msg_iov * m->msg_iovlen, 0, "sendmsg");
    size_t tot = 0, o = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    u8 *b = malloc(tot + 1);
    for (size_t i = 0; i < m->msg_iovlen; i++) { sim_check_range(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, 0, "sendmsg"); if (m->msg_iov[i].iov_len) memcpy(b + o, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); o += m->msg_iov[i].iov_len; }
    long r = sim_send(fd, b, tot, flags);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
long sim_readv(int fd, const struct iovec *v, int nv) { return nv > 0 ? sim_read(fd, v[0].iov_base, v[0].iov_len) : 0; }

int sim_close(int fd) {
    SYS();
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    sim_hash(0x500 + (u64)fd);
    switch (e->kind) {
    case K_SOCK: { sock_t *s = e->obj; e->kind = K_NONE; e->obj = 0; s->closed = 1; sock_unref(s); return 0; }
    case K_PIPE_R: ((pipe_t *)e->obj)->readers--; e->kind = K_NONE; return 0;
    case K_PIPE_W: ((pipe_t *)e->obj)->writers--; e->kind = K_NONE; return 0;
    case K_STD: return 0;
    default: return disk_close(fd);
    }
}
int sim_shutdown(int fd, int how) {
    SYS();
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    if (s->state == S_LISTEN) { s->shut_rd = 1; return 0; }
    if (s->state != S_CONN) { errno = ENOTCONN; return -1; }
    if (how != SHUT_WR) s->shut_rd = 1;
    if (how != SHUT_RD) { s->shut_wr = 1; send_fin(s->c, 1 - s->side); }
    return 0;
}
int sim_setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) {
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
        const struct timeval *t = v;
        u64 ns = (u64)t->tv_sec * SEC + (u64)t->tv_usec * 1000;
        if (!ns) ns = NEVER;
        if (opt == SO_RCVTIMEO) s->rcvto = ns; else s->sndto = ns;
    }
    if (lv == SOL_SOCKET && opt == SO_LINGER) { const struct linger *g = v; s->linger0 = g->l_onoff && !g->l_linger; }
    return 0;
}
int sim_getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) {
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    progress();
    if (*l >= sizeof(int)) {
        *(int *)v = 0;
        if (lv == SOL_SOCKET && opt == SO_ERROR) {
            int e = s->so_error;
            s->so_error = 0;
            if (!e && s->state == S_CONN) { pump(&s->c->d[s->side]); if (s->c->d[s->side].rst_seen && !s->err_reported) { e = ECONNRESET; s->err_reported = 1; } }
            *(int *)v = e;
        } else if (lv == SOL_SOCKET && opt == SO_TYPE) *(int *)v = SOCK_STREAM;
    }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { sock_t *s = get_sock(fd); if (!s) return -1; fill_addr(a, l, s->port); return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { sock_t *s = get_sock(fd); if (!s) return -1; if (s->state != S_CONN) { errno = ENOTCONN; return -1; } fill_addr(a, l, s->side ? 40000 : s->port); return 0; }
int sim_fcntl(int fd, int cmd, long arg) {
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    sock_t *s = e->kind == K_SOCK ? e->obj : 0;
    if (cmd == F_GETFL) return O_RDWR | (s ? (s->nonblock ? O_NONBLOCK : 0) : (e->flags & O_NONBLOCK));
    if (cmd == F_SETFL) {
        sim_point(OP_SYS, 0);
        e = fd_get(fd);
        if (!e) return -1;
        if (e->kind == K_SOCK) ((sock_t *)e->obj)->nonblock = (arg & O_NONBLOCK) != 0;
        else e->flags = (e->flags & ~O_NONBLOCK) | ((int)arg & O_NONBLOCK);
        return 0;
    }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, void *arg) {
    sock_t *s = get_sock(fd);
    if (!s) return -1;
    if (req == FIONBIO) s->nonblock = *(int *)arg != 0;
    if (req == FIONREAD) { *(int *)arg = 0; if (s->state == S_CONN) { pump(&s->c->d[s->side]); *(int *)arg = (int)s->c->d[s->side].arrived; } }
    return 0;
}

/* ---- poll and select ---- */
typedef struct { struct pollfd *f; sock_t **hold; nfds_t n; } pw_t;
static int poll_one(struct pollfd *f, sock_t *held) {
    f->revents = 0;
    if (f->fd < 0) return 0;
    fdent_t *e = held ? 0 : fd_get(f->fd);
    sock_t *s = held;
    if (!s) {
        if (!e) { f->revents = POLLNVAL; return 1; }
        if (e->kind == K_PIPE_R) { if ((f->events & POLLIN) && pipe_rd(e->obj)) f->revents |= POLLIN; return f->revents != 0; }
        if (e->kind == K_PIPE_W) { if ((f->events & POLLOUT) && pipe_wr(e->obj)) f->revents |= POLLOUT; return f->revents != 0; }
        if (e->kind == K_STD && f->fd == 0) { if ((f->events & POLLIN) && std_in_ready()) f->revents |= POLLIN; return f->revents != 0; }
        if (e->kind != K_SOCK) { f->revents = f->events & (POLLIN | POLLOUT); return f->revents != 0; }
        s = e->obj;
    }
    if ((f->events & POLLIN) && rd_ready(s)) f->revents |= POLLIN;
    if ((f->events & POLLOUT) && wr_ready(s)) f->revents |= POLLOUT;
    progress();
    if (s->state == S_FAILED && s->so_error) f->revents |= POLLERR;
    if (s->state == S_CONN && s->c->d[s->side].rst_seen) f->revents |= POLLERR;
    if (hup(s)) f->revents |= POLLHUP;
    return f->revents != 0;
}
static int poll_all(pw_t *w) { int k = 0; for (nfds_t i = 0; i < w->n; i++) k += poll_one(&w->f[i], w->hold[i]); return k; }
static int p_poll(void *a) { return poll_all(a) > 0; }
static int do_poll(struct pollfd *f, nfds_t n, u64 timeout) {
    sock_t *hold[1100];
    if (n > 1100) { errno = EINVAL; return -1; }
    for (nfds_t i = 0; i < n; i++) { hold[i] = 0; if (f[i].fd >= 0 && f[i].fd < MAXFD && fdt[f[i].fd].kind == K_SOCK) { hold[i] = fdt[f[i].fd].obj; hold[i]->refs++; } }
    pw_t w = {f, hold, n};
    int r = poll_all(&w);
    if (!r && timeout) {
        if (sim_fault(DK_EINTR)) { errno = EINTR; r = -1; }
        else {
            sim_block(p_poll, &w, timeout == NEVER ? NEVER : sim_now() + timeout);
            r = poll_all(&w);
        }
    }
    for (nfds_t i = 0; i < n; i++) if (hold[i]) sock_unref(hold[i]);
    sim_hash(0x600 + (u64)r);
    return r;
}
int sim_poll(struct pollfd *f, nfds_t n, int ms) {
    SYS();
    sim_check_range(f, sizeof *f * n, 1, "poll");
    return do_poll(f, n, ms < 0 ? NEVER : (u64)ms * MS);
}
int sim_select(int n, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
    SYS();
    static struct pollfd fbuf[1];
    (void)fbuf;
    struct pollfd f[FD_SETSIZE];
    nfds_t k = 0;
    for (int i = 0; i < n && i < FD_SETSIZE; i++) {
        short ev = 0;
        if (rd && FD_ISSET(i, rd)) ev |= POLLIN;
        if (wr && FD_ISSET(i, wr)) ev |= POLLOUT;
        int x = ex && FD_ISSET(i, ex);
        if (ev || x) {
            if (!fd_get(i)) { errno = EBADF; return -1; }
            f[k].fd = i; f[k].events = ev; k++;
        }
    }
    int r = do_poll(f, k, tv ? (u64)tv->tv_sec * SEC + (u64)tv->tv_usec * 1000 : NEVER);
    if (r < 0) return r;
    if (rd) FD_ZERO(rd);
    if (wr) FD_ZERO(wr);
    if (ex) FD_ZERO(ex);
    int cnt = 0;
    for (nfds_t i = 0; i < k; i++) {
        int rv = f[i].revents;
        if (rd && (f[i].events & POLLIN) && (rv & (POLLIN | POLLHUP | POLLERR))) { FD_SET(f[i].fd, rd); cnt++; }
        if (wr && (f[i].events & POLLOUT) && (rv & (POLLOUT | POLLERR))) { FD_SET(f[i].fd, wr); cnt++; }
    }
    return cnt;
}

/* ---- names ---- */
int sim_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **out) {
    (void)node;
    SYS();
    u32 v = sim_fault_n(DK_DNS, 2);
    if (v == 1) return EAI_AGAIN;
    if (v == 2) { sim_sleep_ns(300 * MS); return EAI_AGAIN; }
    struct addrinfo *a = simh_calloc(1, sizeof *a + sizeof(struct sockaddr_in));
    struct sockaddr_in *in = (struct sockaddr_in *)(a + 1);
    in->sin_family = AF_INET;
    in->sin_port = htons((u16)(svc ? atoi(svc) : 0));
    in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a->ai_family = AF_INET;
    a->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    a->ai_addrlen = sizeof *in;
    a->ai_addr = (struct sockaddr *)in;
    *out = a;
    return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { if (a) sim_free(a); }
struct hostent *sim_gethostbyname(const char *n) {
    (void)n;
    static struct hostent h;
    static u32 addr;
    static char *list[2];
    SYS();
    if (sim_fault(DK_DNS)) { h_errno = TRY_AGAIN; return 0; }
    addr = htonl(INADDR_LOOPBACK);
    list[0] = (char *)&addr; list[1] = 0;
    h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list;
    return &h;
}

/* ---- signals ---- */
void (*sim_signal(int sig, void (*fn)(int)))(int) { if (sig == SIGPIPE) sigpipe_ignored = fn == SIG_IGN; return SIG_DFL; }
int sim_sigaction(int sig, const struct sigaction *n, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (n && sig == SIGPIPE) sigpipe_ignored = n->sa_handler == SIG_IGN; return 0; }

/* a crashed process loses its descriptors: peers see resets */
void net_kill_process(void) {
    for (int i = 3; i < MAXFD; i++) {
        if (fdt[i].kind == K_SOCK) { sock_t *s = fdt[i].obj; s->linger0 = 1; s->refs = 1; s->closed = 1; sock_unref(s); }
        fdt[i].kind = K_NONE; fdt[i].obj = 0;
    }
}

/* ---- harness peers ---- */
static int hput(sock_t *s) {
    for (int i = 0; i < nht; i++) if (!ht[i]) { ht[i] = s; return i; }
    if (nht >= 4096) sim_inconclusive("too many harness sockets");
    ht[nht] = s;
    return nht++;
}
int hnet_listen(int port) {
    if (find_listener(port)) return -1;
    sock_t *s = sock_new();
    s->harness = 1; s->port = port; s->state = S_LISTEN; s->backlog = 64;
    listeners[nlist++] = s;
    return hput(s);
}
int hnet_accept(int h, u64 to) {
    sock_t *s = ht[h];
    sim_point(OP_HARNESS, 0);
    if (!rd_ready(s)) sim_block(p_rd, s, to == NEVER ? NEVER : sim_now() + to);
    progress();
    if (!s->nq) return -1;
    sock_t *n = take_conn(s);
    n->harness = 1;
    return hput(n);
}
int hnet_connect(int port, u64 to) {
    sock_t *s = sock_new();
    s->harness = 1;
    sim_point(OP_HARNESS, 0);
    start_connect(s, port, 0);
    if (!p_conn(s)) sim_block(p_conn, s, to == NEVER ? NEVER : sim_now() + to);
    p_conn(s);
    if (s->state != S_CONN) { sock_unref(s); return -1; }
    return hput(s);
}
int hnet_send_for(int h, const void *p, size_t n, u64 to) {
    sock_t *s = ht[h];
    size_t o = 0;
    sim_point(OP_HARNESS, 0);
    s->sndto = to;
    while (o < n) {
        long r = do_send(s, (const u8 *)p + o, n - o, 0, 0);
        if (r < 0) break;
        o += (size_t)r;
    }
    s->sndto = NEVER;
    return (int)o;
}
int hnet_send(int h, const void *p, size_t n) { return hnet_send_for(h, p, n, NEVER) == (int)n ? 0 : -1; }
long hnet_recv(int h, void *p, size_t n, u64 to) {
    sock_t *s = ht[h];
    sim_point(OP_HARNESS, 0);
    s->rcvto = to;
    long r = do_recv(s, p, n, 0, 0);
    s->rcvto = NEVER;
    if (r == -1 && errno == EAGAIN) return -2;
    return r;
}
int hnet_recv_all(int h, void *p, size_t n, u64 to) {
    u64 dl = to == NEVER ? NEVER : sim_now() + to;
    size_t o = 0;
    while (o < n) {
        u64 now = sim_now();
        long r = hnet_recv(h, (u8 *)p + o, n - o, dl == NEVER ? NEVER : dl > now ? dl - now : 1);
        if (r == -2 && dl != NEVER && sim_now() >= dl) return 0;
        if (r <= 0 && r != -2) return 0;
        if (r > 0) o += (size_t)r;
    }
    return 1;
}
void hnet_close(int h) { if (!ht[h]) return; sock_t *s = ht[h]; ht[h] = 0; s->closed = 1; sock_unref(s); sim_point(OP_HARNESS, 0); }
void hnet_reset(int h) { if (!ht[h]) return; ht[h]->linger0 = 1; hnet_close(h); }
int hnet_readable(int h) { return rd_ready(ht[h]); }
int hnet_eof(int h) { sock_t *s = ht[h]; if (s->state != S_CONN) return 1; dir_t *d = &s->c->d[s->side]; pump(d); return !d->arrived && (d->fin_seen || d->rst_seen); }
int hnet_conn_id(int h) { return ht[h] && ht[h]->c ? ht[h]->c->id : -1; }
int net_fd_conn_id(int fd) { if (fd < 0 || fd >= MAXFD || fdt[fd].kind != K_SOCK) return -1; sock_t *s = fdt[fd].obj; return s->c ? s->c->id : -1; }
int net_fd_alive(int fd) {
    if (fd < 0 || fd >= MAXFD || fdt[fd].kind != K_SOCK) return 0;
    sock_t *s = fdt[fd].obj;
    if (s->state != S_CONN) return 0;
    pump(&s->c->d[s->side]);
    return !s->c->d[s->side].rst_seen;
}
