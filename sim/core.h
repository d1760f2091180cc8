/* Private interface between the simulator's files. */
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include "sim.h"

#define MAXDEC (1u << 20)
#define TAILSZ (1u << 17)
#define NPROBE 96
#define NSTATE 64

typedef struct { u8 kind, pad; u16 tid; u32 occ; u32 val; } dec_t;

enum { RS_NONE, RS_OK, RS_VIOL, RS_INCONC, RS_TIMEOUT, RS_ERROR };

typedef struct {
    int status;
    char cls[64];
    char msg[1024];
    u64 hash;          /* hash of all events of the run                       */
    u64 shash;         /* hash of the interleaving (switches and sync points) */
    u64 simtime, steps, accesses, switches, checks;
    u64 faults[DK_MAX];
    int nontrivial;
    int faulty;
    int threads;
    int nprobe;
    struct { char name[40]; u64 n; } probe[NPROBE];
    int nstate;
    u64 state[NSTATE];
    u64 nevents;
    u32 ndec;
    u32 tail_len;
    char tail[TAILSZ];
    dec_t dec[MAXDEC];
} result_t;

#define CORE_W_COND 2   /* W_COND of pt.c */
enum { TS_FREE, TS_RUN, TS_ADDR, TS_GEN, TS_DONE, TS_KILLED };

typedef struct thr {
    int id, state, group;
    void *sp;
    int slot;
    void *(*fn)(void *);
    void *arg, *ret;
    int detached, joiner;
    const void *waddr;
    int wkind;
    u64 wseq;
    int signalled;
    int (*ready)(void *);
    void *rarg;
    u64 deadline;       /* NEVER: none */
    int rt;             /* deadline is on the wall clock */
    int err;
    u8 *tls;
    void *keys[64];
    u32 occ[DK_MAX];
    u64 acc;
    u64 prio;
    int nofault;
    u32 yields;
    u64 last_yield;
    u32 consec;
    u64 oom_hits;
    int stalled;
    int rqpos, tqpos, gqpos;
    /* replay of memory preemptions */
    u32 memidx;
} thr_t;

extern thr_t *cur;
extern result_t *R;
extern thr_t *thrs[];
extern int nthr;
extern u64 rt_off;

void core_run(void (*fn)(void), u64 seed, const dec_t *replay, u32 nreplay, int verbose) __attribute__((noreturn));
void run_exit(int status) __attribute__((noreturn));
thr_t *thr_new(void *(*fn)(void *), void *arg);
void thr_ready(thr_t *t);
/* block on an address until somebody calls wake; returns 1 woken 0 timed out */
void block_addr(const void *addr, int kind, u64 deadline, int rt);
void reschedule(void);      /* current thread is blocked: pick another */
void thr_exit_current(void) __attribute__((noreturn));
u64 rnd(void);
void heap_init(void);
void heap_config(int mode);
void net_init(void);
void disk_init(void);
void misc_init(void);
void pt_init(void);
void pt_thread_exit(thr_t *t);
void disk_forget_process(void);
void net_kill_process(void);
extern u64 cfg_yield_rate, cfg_mem_mean;
void core_callers(void **ra, int n);
void core_roots(void (*f)(const void *, size_t));   /* everything outside the heap that may hold pointers into it */
void core_note_callers(u64 size, void **ra, int n);
#endif
