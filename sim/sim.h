/* Deterministic simulator: interface for harnesses and for the simulator's own
 * files. Everything runs on one OS thread; simulated threads are coroutines. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;

#define MS 1000000ull
#define SEC 1000000000ull
#define NEVER (~0ull)

/* ---- decisions -------------------------------------------------------- */
/* Every nondeterministic choice has a kind. Value 0 is the benign default.
 * A choice is identified by (kind, simulated thread, n-th choice of that kind
 * in that thread), so a trace is the sparse list of non-default values. */
enum {
    DK_CFG,          /* per-run configuration                        */
    DK_WORK,         /* workload                                     */
    DK_YIELD,        /* preemption at a synchronisation point        */
    DK_MEM,          /* preemption at a memory access                */
    DK_BLOCK,        /* who runs next when the current thread blocks */
    DK_WAKE,         /* which waiter a signal wakes                  */
    /* faults from here on */
    DK_SPURIOUS,     /* spurious condition variable wake-up          */
    DK_STALL,        /* a thread is not scheduled for a while        */
    DK_LEAP,         /* time passes while threads are runnable       */
    DK_CLOCK,        /* wall clock jumps                             */
    DK_OOM,          /* allocation fails                             */
    DK_THREAD,       /* thread creation fails                        */
    DK_SHORT_SEND,   /* send accepts fewer bytes                     */
    DK_SHORT_RECV,   /* recv returns fewer bytes                     */
    DK_EINTR,        /* blocking call interrupted                    */
    DK_RESET,        /* connection reset                             */
    DK_DELAY,        /* extra network latency                        */
    DK_REFUSE,       /* connection attempt refused                   */
    DK_CONN_TIMEOUT, /* connection attempt never answered            */
    DK_ACCEPT,       /* accept fails                                 */
    DK_SOCKET,       /* socket creation or option call fails         */
    DK_DNS,          /* name resolution fails                        */
    DK_PARTITION,    /* link between two nodes cut                   */
    DK_PEER,         /* misbehaviour of a harness peer               */
    DK_DISK_WRITE,   /* write fails or is short                      */
    DK_DISK_FULL,    /* no space                                     */
    DK_DISK_READ,    /* read fails                                   */
    DK_DISK_META,    /* open/rename/unlink/mkdir fails               */
    DK_CRASH,        /* process killed                               */
    DK_POWER,        /* power loss: unsynced data lost or torn       */
    DK_LOSE,         /* which unsynced data is lost or torn          */
    DK_MAX
};
#define DK_FIRST_FAULT DK_SPURIOUS

u32 sim_choose(int kind, u32 n);     /* uniform in [0,n), 0 is the default   */
int sim_fault(int kind);             /* 1 with the run's rate for this kind  */
u32 sim_fault_n(int kind, u32 n);    /* 0, or 1..n with the run's rate       */
void sim_set_rate(int kind, u32 per_myriad);
u32 sim_get_rate(int kind);
void sim_count_fault(int kind);      /* a fault of this kind really happened */
static inline u32 sim_range(int kind, u32 lo, u32 hi) { return lo + sim_choose(kind, hi - lo + 1); }
#define W(n) sim_choose(DK_WORK, (n))
#define WR(lo, hi) sim_range(DK_WORK, (lo), (hi))
#define C(n) sim_choose(DK_CFG, (n))
#define CR(lo, hi) sim_range(DK_CFG, (lo), (hi))
void sim_faults_off(void);           /* all rates to zero, network healed    */
/* suppress faults and preemption bookkeeping of the current thread */
void sim_nofault_begin(void);
void sim_nofault_end(void);

/* ---- verdicts --------------------------------------------------------- */
void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define CHECK(c, cls, ...) do { sim_checks++; if (!(c)) sim_fail(cls, __VA_ARGS__); } while (0)
extern u64 sim_checks;
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(const char *name);    /* coverage probe: rare condition seen  */
void sim_mark_nontrivial(void);      /* this run really exercised the thing  */
void sim_state(u64 h);               /* abstract state seen, for coverage    */
void sim_inconclusive(const char *why) __attribute__((noreturn));

/* ---- threads and time -------------------------------------------------- */
int sim_spawn(void (*fn)(void *), void *arg);      /* returns thread id       */
void sim_join(int tid);
int sim_join_for(int tid, u64 ns);                 /* 1 if it ended in time   */
int sim_self(void);
int sim_alive(int tid);
int sim_threads_alive(void);
int sim_waiting(int id);              /* blocked on a condition variable or a socket */                       /* all but the main thread */
int sim_threads_created(void);
void sim_yield(void);                              /* preemption point        */
void sim_sleep_ns(u64 ns);
u64 sim_now(void);                                 /* monotonic, virtual      */
u64 sim_wall(void);                                /* wall clock, virtual     */
u64 sim_wall_max(void);                            /* highest wall clock so far */
u32 sim_wall_jumps(void);                          /* jumps so far            */
void sim_wall_jump(i64 ns);
u64 sim_injected(void);                            /* delay injected so far   */
u64 sim_injected_since(u64 t);                     /* delay injected that ended after t */
int sim_poll_until(int (*fn)(void *), void *arg, u64 timeout_ns, u64 step_ns); /* fn may call the code under test */
int sim_wait_until(int (*ready)(void *), void *arg, u64 timeout_ns); /* 1 ready */
void sim_block(int (*ready)(void *), void *arg, u64 deadline);
void sim_event_at(u64 t);
void sim_limit(u64 virtual_ns, u64 steps);         /* run limits              */
u64 sim_steps(void);
void sim_group(int g);               /* process group of current thread       */
void sim_kill_group(int g);          /* process crash: its threads vanish     */
int sim_group_alive(int g);
void sim_globals_reset(void);        /* repository globals back to load time  */
void sim_dump_threads(void);

/* standard configuration of one run, drawn from DK_CFG. The mask says which
 * fault kinds the harness can interpret. Returns 0 for a fault-free run. */
#define F(k) (1ull << (k))
int sim_configure(u64 fault_mask);

/* ---- heap --------------------------------------------------------------- */
void *simh_malloc(size_t);
void *simh_calloc(size_t, size_t);
void *simh_realloc(void *, size_t);
char *simh_strdup(const char *);
void sim_free(void *);
int sim_heap_contains(const void *p);
int sim_heap_live(const void *p, size_t n);        /* addressable heap memory */
u64 sim_heap_live_count(void);
u32 sim_heap_leaks_count(u64 seq);                  /* the same without noting where they come from */
void sim_oom_never(void);                           /* allocations do not fail in this run, whatever the harness says */
u32 sim_heap_lost(u64 seq);                         /* those of them that nothing points to any more                 */
u32 sim_heap_leaks(u64 seq);                        /* blocks allocated by the code after sim_alloc_seq() was seq, not freed */
u64 sim_heap_live_bytes(void);
void sim_oom_scope(int on);          /* allocation failures only when on      */
u64 sim_alloc_seq(void);
u64 sim_alloc_failed(void);          /* failures injected into this thread    */
u64 sim_alloc_failed_any(void);      /* failures injected into any thread     */
void sim_oom_at(u64 first, u32 count); /* fail these allocations (sequence no) */

/* ---- network for harness peers (fault free at the peer's own end) -------- */
int hnet_listen(int port);                         /* handle or -1            */
int hnet_accept(int h, u64 timeout_ns);            /* handle or -1            */
int hnet_connect(int port, u64 timeout_ns);
int hnet_send(int h, const void *p, size_t n);     /* all bytes, blocking     */
int hnet_send_for(int h, const void *p, size_t n, u64 timeout_ns); /* bytes   */
long hnet_recv(int h, void *p, size_t n, u64 timeout_ns); /* -1 err 0 eof -2 timeout */
int hnet_recv_all(int h, void *p, size_t n, u64 timeout_ns); /* 1 ok          */
void hnet_close(int h);                            /* FIN                     */
void hnet_reset(int h);                            /* RST                     */
int hnet_readable(int h);
int hnet_eof(int h);
void net_partition(int on);                        /* cut everything          */
void net_config(u64 lat_lo, u64 lat_hi, u32 sndbuf);
int net_open_sockets(void);                        /* fds open in the process */
int net_fd_open(int fd);
int net_fd_conn_id(int fd);                        /* id of the connection    */
int hnet_conn_id(int h);
int net_fd_alive(int fd);                          /* open, connected, no reset seen */
void net_listen_refuse(int port, int on);
u64 net_bytes_sent(void);
u32 net_connects(void);                             /* connect() calls so far  */
u64 net_connect_at(u32 i);                         /* when the i-th was made  */

/* ---- disk ------------------------------------------------------------------ */
void disk_power_loss(void);          /* drop unsynced data per DK_LOSE        */
void disk_process_crash(void);       /* stdio buffers lost, page cache kept   */
int disk_exists(const char *path);
int disk_put(const char *path, const void *p, size_t n);
long disk_get(const char *path, void *p, size_t n);
void disk_capacity(u64 bytes);
int disk_list(const char *prefix, char names[][128], int max);

/* ---- stdio for the stdio transport ------------------------------------------ */
void std_in_feed(const void *p, size_t n);
void std_in_eof(void);
size_t std_out_take(void *p, size_t n);

/* ---- harness registration ---------------------------------------------------- */
typedef struct sim_harness {
    const char *property;
    const char *name;
    void (*run)(void);
    const char *real;      /* components executed as real code            */
    const char *stub;      /* components replaced                          */
    const char *rule;      /* what counts as distinct and non-trivial      */
    int weight;            /* share of the property's budget               */
    struct sim_harness *next;
} sim_harness_t;
void sim_register(sim_harness_t *h);
/* runs a harness and then looks for memory that was lost on the way (allocations do not fail in these runs) */
void sim_memory_checked(void (*fn)(void));
#define MEMORY_HARNESS(id, nm, fn, real_, stub_, w) \
    static void id##_run(void) { sim_memory_checked(fn); } \
    HARNESS(id, "P28", nm, id##_run, real_, stub_, "the workload did something that counts for the property it was written for, ended, and everything allocated during it was looked for", w)
/* byte x of an alphabet with some bytes that are no ASCII; byte i of a text of n bytes, which may be half of a two byte character */
static inline u8 alpha_byte(u8 first, u32 x) { static const u8 high[] = {0xe9, 0x80, 0xff, 0x7f}; x %= 30; return x < 26 ? (u8)(first + x) : high[x - 26]; }
static inline char text_byte(u32 i, u32 n, u32 key, char plain) { return (i | 1) < n && (i / 2 * 7 + key) % 9 == 0 ? (char)(i & 1 ? 0xa9 : 0xc3) : plain; }
#define HARNESS(id, prop, nm, fn, real_, stub_, rule_, w) \
    static sim_harness_t id##_h = {prop, nm, fn, real_, stub_, rule_, w, 0}; \
    __attribute__((constructor)) static void id##_reg(void) { sim_register(&id##_h); }

/* ---- internal ------------------------------------------------------------------ */
void sim_point(int op, u64 obj);     /* sync point: cost, preemption, hash    */
void sim_cost(u64 ns);
void sim_hash(u64 v);
int sim_faults_allowed(void);
extern int sim_verbose;
extern int sim_running;              /* inside a run                          */
void sim_access(uintptr_t a, size_t n, int write, void *pc);
void sim_check_range(const void *p, size_t n, int write, const char *what);
#define OP_LOCK 1
#define OP_UNLOCK 2
#define OP_WAIT 3
#define OP_SIGNAL 4
#define OP_ATOMIC 5
#define OP_SYS 6
#define OP_THREAD 7
#define OP_ALLOC 8
#define OP_HARNESS 9
#define OP_RW 10
#define OP_TIME 11
/* a text inside a JSON string; how 1 and 2: some characters as hex escapes in small and
 * capital letters, 3: short escapes where there are some */
static inline void json_escape(char *o, size_t cap, const char *s, int how) {
    static const char sh[] = "b\bf\fn\nr\rt\t//";
    size_t n = 0;
    for (; *s && n + 8 < cap; s++) {
        unsigned c = (unsigned char)*s;
        const char *e = how == 3 ? strrchr(sh + 1, (int)c) : 0;
        if (c == '"' || c == '\\') { o[n++] = '\\'; o[n++] = (char)c; }
        else if (e && (e - sh) % 2) { o[n++] = '\\'; o[n++] = e[-1]; }
        else if (c < 32 || (how % 3 && c < 127 && c % 3 == 0)) n += (size_t)snprintf(o + n, cap - n, how == 2 ? "\\u%04X" : "\\u%04x", c);
        else if (how % 3 && c >= 0xc0 && c < 0xf0) {
            u32 v = c < 0xe0 ? (c & 31) << 6 | (s[1] & 63) : (c & 15) << 12 | (u32)(s[1] & 63) << 6 | (s[2] & 63);
            s += c < 0xe0 ? 1 : 2;
            n += (size_t)snprintf(o + n, cap - n, how == 2 ? "\\u%04X" : "\\u%04x", v);
        } else o[n++] = (char)c;
    }
    o[n] = 0;
}
#endif
