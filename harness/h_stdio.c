/* P21: stdio transport. */
#include "sim.h"
#include "mcp_stdio_transport.h"
#include "mcp_transport.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>

#define NM 200
static u32 len[NM];
static int nfed, whole, got, fed_done, broken;      /* messages put on stdin, delivered */
static mcp_transport_t *tr;
static int destroyed, stopped, running, starts;
static u64 stop_at, cb_alloc;
static int oom_end;
typedef struct { u32 l; int who, seq, state; } out_t;   /* 1 begun, 2 sent, 3 failed */
static out_t O[400];
static int no, resp_due, seqs[8], ends_seen, in_cb;

static u8 byte_in(int m, u32 i) { return alpha_byte('a', (u32)(m * 7 + (int)(i * 3 + (i >> 6)))); }
static void put_out(char *b, int who, int seq, u32 l) {
    snprintf(b, l + 1, "%d.%d:", who, seq);
    for (size_t i = strlen(b); i < l; i++) b[i] = (char)alpha_byte('A', (u32)(who * 5 + seq * 3 + (int)i));
    b[l] = 0;
}
static int out_new(int who, u32 l) { if (no >= 400) sim_inconclusive("too many messages"); O[no] = (out_t){l, who, seqs[who]++, 1}; return no++; }

static char *on_msg(void *ud, const void *d, size_t n, int *err) {
    CHECK(ud == (void *)&got, "callback-argument", "the handler got another user pointer");
    CHECK(!destroyed, "late-callback", "the handler ran after destroy returned");
    CHECK(!stopped, "late-callback", "the handler ran after stop returned");
    CHECK(!in_cb, "overlap", "two messages were handled at once");
    in_cb = 1;
    int m = got++;
    CHECK(m < whole, "invented", "message %d was delivered, only %d were written completely", m, whole);
    CHECK(n == len[m], "wrong-length", "message %d has %zu bytes, %u were written", m, n, len[m]);
    for (u32 i = 0; i < n; i++) if (((const u8 *)d)[i] != byte_in(m, i)) sim_fail("wrong-data", "byte %u of message %d differs", i, m);
    CHECK(((const char *)d)[n] == 0, "no-terminator", "message %d is not terminated", m);
    *err = W(5) == 1;
    char *r = 0;
    if (W(2)) {
        u32 l = WR(8, W(3) ? 40 : 9000);
        int k = out_new(0, l);
        O[k].state = 4;         /* a response: its sending is not observable */
        r = malloc(l + 1);
        if (r) put_out(r, 0, O[k].seq, l); else O[k].state = 3;
        resp_due++;
    }
    if (W(4) == 1) sim_sleep_ns(WR(1, 50) * MS);
    in_cb = 0;
    return r;
}
static void feeder(void *a) {
    (void)a;
    int n = (int)WR(0, 12);
    for (int m = 0; m < n; m++) {
        u32 l = W(150) == 1 ? 1024 * 1024 - W(2) : W(8) == 1 ? WR(5000, 70000) : W(3) == 1 ? WR(100, 3000) : WR(1, 40);
        int bad = sim_fault(DK_PEER);
        u8 *b = malloc(l + 4);
        u32 nl = htonl(l);
        if (bad) broken = 1;
        if (bad && W(2)) { nl = htonl(1024 * 1024 + 1 + W(3)); sim_count_fault(DK_PEER); }
        memcpy(b, &nl, 4);
        len[m] = l;
        for (u32 i = 0; i < l; i++) b[4 + i] = byte_in(m, i);
        u32 upto = bad && ntohl(nl) == l ? W(l + 4) : l + 4;
        nfed++;
        u32 o = 0;
        int last = 0;
        while (o < upto) {
            u32 k = W(3) ? upto - o : 1 + W(upto - o);
            last = !bad && o + k == l + 4;
            if (last) whole++;          /* counted before the reader can see it */
            std_in_feed(b + o, k);
            o += k;
            sim_yield();
            if (W(4) == 1) sim_sleep_ns(WR(1, 250) * MS);
        }
        free(b);
        if (bad) { sim_probe(ntohl(nl) == l ? "message cut off" : "message with an impossible length"); if (ntohl(nl) == l) { sim_count_fault(DK_PEER); break; } break; }
    }
    if (broken || W(3)) { std_in_eof(); ends_seen = 1; sim_probe("end of input"); }
    fed_done = 1;
}
static void sender(void *a) {
    int who = (int)(long)a, n = (int)WR(1, 8);
    while (n--) {
        if (stop_at && W(2)) break;
        u32 l = W(5) == 1 ? WR(3000, 10000) : WR(8, 60);
        int k = out_new(who, l), r;
        char *b = malloc(l + 1);
        put_out(b, who, O[k].seq, l);
        if (W(2)) r = mcp_transport_send(tr, b, l);
        else {
            u32 x = W(l + 1), y = x + W(l - x + 1);
            mcp_buffer_t v[4] = {{b, x}, {b + x, y - x}, {0, 0}, {b + y, l - y}};
            r = mcp_transport_sendv(tr, v, 4);
        }
        O[k].state = r == 0 ? 2 : 3;
        CHECK(r == 0, "send-failed", "sending %u bytes to standard output failed", l);
        free(b);
        if (W(4) == 1) sim_sleep_ns(WR(1, 60) * MS);
    }
}
static int drained(void *a) { (void)a; return fed_done && got >= whole; }
static void check_out(void) {
    static u8 b[4 << 20];
    size_t n = std_out_take(b, sizeof b), o = 0;
    int next[8] = {0}, seen = 0;
    while (o < n) {
        CHECK(n - o >= 4, "torn-frame", "standard output ends within a length prefix");
        u32 l;
        memcpy(&l, b + o, 4);
        l = ntohl(l);
        CHECK(l <= n - o - 4, "torn-frame", "a frame on standard output claims %u bytes, %zu follow", l, n - o - 4);
        int who = -1, seq = -1;
        char h[16] = "";
        memcpy(h, b + o + 4, l < 15 ? l : 15);
        CHECK(sscanf(h, "%d.%d:", &who, &seq) == 2 && who >= 0 && who < 8, "mixed-frame", "a frame on standard output does not start like any message sent");
        out_t *m = 0;
        for (int i = 0; i < no; i++) if (O[i].who == who && O[i].seq == seq) m = &O[i];
        CHECK(m && m->l == l, "mixed-frame", "a frame on standard output has another length than the message sent");
        char *want = malloc(l + 1);
        put_out(want, who, seq, l);
        CHECK(!memcmp(want, b + o + 4, l), "mixed-frame", "the bytes of message %d.%d were mixed with others", who, seq);
        free(want);
        CHECK(seq >= next[who], "out-of-order", "message %d.%d appears after %d.%d", who, seq, who, next[who] - 1);
        next[who] = seq + 1;
        m->state |= 16;
        o += 4 + l;
        seen++;
    }
    for (int i = 0; i < no; i++) {
        if ((O[i].state & 15) == 2) CHECK(O[i].state & 16, "send-lost", "message %d.%d was sent and never appeared", O[i].who, O[i].seq);
        if ((O[i].state & 15) == 4) CHECK(O[i].state & 16, "response-lost", "the response to a handled message never appeared");
    }
    sim_state((u64)seen << 20 | (u64)got << 10 | (u64)whole << 2 | (u64)ends_seen);
}
/* one transport used synchronously */
static void run_sync(void) {
    tr = mcp_transport_stdio_create();
    if (!tr) return;
    int ft = sim_spawn(feeder, 0);
    for (int i = 0; i < 60; i++) {
        char *d = 0;
        size_t n = 0;
        u32 to = W(2) ? WR(0, 400) : 5000;
        u64 a = sim_now();
        int all = fed_done, have = whole > got;
        int r = mcp_transport_receive(tr, &d, &n, to);
        u64 took = sim_now() - a;
        if (r == 0) {
            int m = got++;
            CHECK(m < whole && n == len[m], "wrong-length", "message %d has %zu bytes, %u were written", m, n, len[m]);
            for (u32 k = 0; k < n; k++) if ((u8)d[k] != byte_in(m, k)) sim_fail("wrong-data", "byte %u of message %d differs", k, m);
            free(d);
        } else {
            CHECK(!d, "data-with-error", "an error was returned with data");
            if (r == -2) {
                CHECK(!have, "timeout-with-data", "a receive timed out although a whole message was waiting");
                CHECK(took + MS >= (u64)to * MS, "timeout-early", "a receive of %u ms timed out after %.3f s", to, (double)took / SEC);
                CHECK(took < (u64)to * MS + SEC / 2 + sim_injected_since(a), "timeout-late", "a receive of %u ms timed out after %.3f s", to, (double)took / SEC);
                if (all && !ends_seen) break;
            } else {
                CHECK(!have || sim_alloc_failed(), "receive-failed", "a receive failed although a whole message was waiting");
                CHECK(ends_seen || broken || sim_alloc_failed(), "receive-failed", "a receive failed without an error on standard input");
                break;
            }
        }
    }
    sim_join(ft);
    mcp_transport_destroy(tr);
    if (got >= 2) sim_mark_nontrivial();
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(5000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_CLOCK) | F(DK_OOM) | F(DK_SHORT_SEND) | F(DK_SHORT_RECV) | F(DK_EINTR) | F(DK_THREAD) | F(DK_PEER));
    nfed = whole = got = fed_done = broken = destroyed = stopped = no = resp_due = ends_seen = in_cb = oom_end = 0;
    stop_at = 0; memset(seqs, 0, sizeof seqs);
    int pool = C(3) == 1;
    if (pool) mcp_memory_pool_system_init(4, 2, 1);
    if (C(4) == 1) { run_sync(); goto end; }
    u32 oom = sim_get_rate(DK_OOM);
    int limited = C(2);
    if (limited) sim_set_rate(DK_OOM, 0);
    tr = mcp_transport_stdio_create();
    if (!tr) { CHECK(oom && !limited, "create-failed", "the transport could not be created"); goto end; }
    int r = mcp_transport_start(tr, on_msg, &got, 0);
    if (r) {
        CHECK(sim_get_rate(DK_THREAD) || oom, "start-failed", "the transport could not be started");
        mcp_transport_destroy(tr);
        goto end;
    }
    int tid[8], nt = 0, ns = (int)CR(0, 3);
    int ft = sim_spawn(feeder, 0);
    for (int i = 0; i < ns; i++) tid[nt++] = sim_spawn(sender, (void *)(long)(i + 1));
    int early = C(3) == 1;
    if (!early) {
        sim_join(ft);
        u64 a = sim_now();
        int ok = sim_wait_until(drained, 0, 60 * SEC + 4 * sim_injected());
        if ((!oom || limited) && !ok) sim_fail("not-delivered", "%d of %d messages were delivered %.0f s after the last one was written", got, whole, (double)(sim_now() - a) / SEC);
    } else sim_sleep_ns(WR(0, 500) * MS);
    for (int i = 0; i < nt; i++) sim_join(tid[i]);
    u64 a = sim_now();
    stop_at = a;
    if (C(3)) {
        mcp_transport_stop(tr);
        CHECK(sim_now() - a < 2 * SEC + sim_injected_since(a), "stop-slow", "stopping took %.1f s", (double)(sim_now() - a) / SEC);
        stopped = 1;
        if (W(2)) mcp_transport_stop(tr);
        sim_probe("stopped");
        if (C(3) == 1 && !ends_seen && !early) {          /* start once more */
            stopped = 0;
            if (mcp_transport_start(tr, on_msg, &got, 0) == 0) { sim_probe("restarted"); sim_sleep_ns(WR(0, 400) * MS); }
        }
    }
    a = sim_now();
    mcp_transport_destroy(tr);
    CHECK(sim_now() - a < 2 * SEC + sim_injected_since(a), "stop-slow", "destroying took %.1f s", (double)(sim_now() - a) / SEC);
    destroyed = 1;
    if (early) sim_join(ft);
    sim_sleep_ns(300 * MS);
    CHECK(sim_threads_alive() == 0, "thread-left", "%d threads still run after destroy", sim_threads_alive());
    check_out();
    if (got >= 2 || no >= 4) sim_mark_nontrivial();
end:
    if (pool) mcp_memory_pool_system_cleanup();
    if (C(2)) mcp_thread_cache_cleanup();
}
HARNESS(p21, "P21", "stdio", run, "stdio transport, generic transport, memory pool, locks", "standard input and output, clocks, the peer process",
        "at least two messages were handled or four sent and compared byte for byte", 1)
MEMORY_HARNESS(p21_mem, "memory-stdio", run,
        "stdio transport, generic transport, memory pool, locks",
        "standard input and output, clocks, the peer process", 1)
