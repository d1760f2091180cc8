/* Recording stand-in for libwebsockets: one struct lws per connection. */
#ifndef LWS_FAKE_H
#define LWS_FAKE_H
#include <libwebsockets.h>
#include <stddef.h>
#include "sim.h"
#define LWS_OUT 262144
struct lws {
    void *user;              /* per-session data                          */
    int closed;              /* the library forgot the connection         */
    int broken;              /* writes fail from now on                   */
    const char *args, *uri;  /* request                                   */
    const char *hname, *hvalue; /* one custom header                      */
    int post;
    size_t len, cap;
    char *out;               /* bytes written after the headers           */
    /* only for connections of a context (below) */
    struct lws_context *ctx;
    struct lpeer *peer;
    void *opaque;
    int ws, final, want_write, method, busy, headers, code, close_after, timed_close;
    size_t declared, written, body_left;
    char *h[4];              /* request headers, LH_*                     */
};
extern void *lws_fake_ctx_user;
struct lws *lws_fake_new(size_t per_session);
void lws_fake_free(struct lws *w);

/* A context whose service loop is run by the code under test. Peers are driven
 * by the harness: what they do is queued, and every lws_service() call handles
 * one thing of one peer, chosen by the seed. */
enum { LM_GET, LM_POST, LM_OPTIONS, LM_DELETE };
enum { LH_ORIGIN, LH_ACCEPT, LH_SESSION, LH_LAST_EVENT, LH_N };
struct lresp { int code, done, open_ended; size_t declared, len, cap; char *body; };
struct lmsg { char *data; size_t len; };
struct lev { int kind, a; char *data; size_t len; char *uri, *args, *h[4]; struct lev *next; };
typedef struct lpeer {
    struct lws *w;           /* 0 once the server side is gone            */
    int connected, refused, established, gone, closing, broken;
    struct lev *head, **tail;
    struct lresp *resp; int nresp, cresp;
    struct lmsg *msg; int nmsg, cmsg;
    int queued, handled;     /* things queued by the peer, things handled */
    int max_final;
    int client;              /* the code under test is the client         */
    char where[120];         /* address:port/path it asked for            */
    struct lpeer *next;
} lpeer;
extern int lws_fake_strict;     /* complain about use by two threads at a time */
extern int lws_fake_ctx_live, lws_fake_served;   /* contexts alive; callbacks delivered */
extern u64 lws_fake_idle_ms;                      /* extra time lws_service() may block */
extern void (*lws_fake_on_client)(lpeer *);       /* told of every connection the code opens */
lpeer *lp_connect(void);                          /* queues the connection */
void lp_upgrade(lpeer *p);                        /* WebSocket handshake */
void lp_send(lpeer *p, const void *d, size_t n, int final);
void lp_pong(lpeer *p);
void lp_request(lpeer *p, int method, const char *uri, const char *args, size_t content_len, int close_after);
void lp_header(lpeer *p, int which, const char *value); /* of the request queued last */
void lp_body(lpeer *p, const void *d, size_t n);  /* part of the body of the last request */
void lp_close(lpeer *p);                          /* peer closes */
void lp_drop(lpeer *p);                           /* writes to it fail from now on, then it closes */
void lp_free_all(void);
int lp_can_request(lpeer *p);                     /* the previous transaction is over */
#endif
