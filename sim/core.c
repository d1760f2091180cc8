/* Coroutines, scheduler, virtual time, decision stream. */
#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#define STACK_SIZE (512u << 10)
#define MAXSLOT 2048
#define MAXTHR 60000

thr_t *cur;
thr_t *thrs[MAXTHR];
int nthr;
result_t *R;
int sim_running, sim_verbose;
u64 sim_checks;
u64 rt_off;                      /* wall clock minus monotonic clock */

static u8 *stacks;
static int free_slots[MAXSLOT], n_free_slots, top_slot;

static thr_t *rq[MAXSLOT]; static int nrq;      /* runnable */
static thr_t *tq[MAXSLOT]; static int ntq;      /* blocked with a deadline */
static thr_t *gq[MAXSLOT]; static int ngq;      /* blocked on a predicate */
static u64 tq_min;                               /* lower bound on deadlines */

static u64 *evh; static int nevh, capevh;        /* heap of event times */

static u64 vbase;                                /* virtual time without accesses */
static u64 limit_ns, limit_steps;
static u64 steps, switches, injected;
static u64 acc_done;                             /* accesses before this slice */
static i64 cd, cd_start;                         /* access countdown */
static u64 acc_at_switch;
static u64 next_mem;                             /* random mode: global access no. */

static int replaying;
static u64 rng[4];
static u32 rates[DK_MAX];
static int policy;                               /* 0 random 1 pct */
u64 cfg_yield_rate, cfg_mem_mean;
static u32 block_rr;                             /* per-mille round robin at block */
static u64 prio_low;
static u64 pct_next;
static int pct_left;
static u64 pct_span;

#define ACC_NS 2
#define SLICE 20000

/* ------------------------------------------------------------- PRNG */
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 rnd(void) {
    u64 r = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3];
    rng[2] ^= t; rng[3] = rotl(rng[3], 45);
    return r;
}
static void rng_seed(u64 s) {
    for (int i = 0; i < 4; i++) {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        rng[i] = z ^ (z >> 31);
    }
}

/* ------------------------------------------------------------- hashing */
static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
void sim_hash(u64 v) { R->hash = mix(R->hash, v); R->nevents++; }

static void tail_put(const char *s, size_t n) {
    if (n >= TAILSZ / 2) n = TAILSZ / 2 - 1;
    if (R->tail_len + n >= TAILSZ) {
        u32 keep = TAILSZ / 2;
        memmove(R->tail, R->tail + R->tail_len - keep, keep);
        R->tail_len = keep;
    }
    memcpy(R->tail + R->tail_len, s, n);
    R->tail_len += (u32)n;
}
/* what is printed is text whatever the code under test hands over */
static void printable(char *s) { for (; *s; s++) if ((u8)*s < 32 || (u8)*s > 126) *s = *s == '\t' ? ' ' : '?'; }
static void vlog(int hash, const char *fmt, va_list ap) {
    char b[1024];
    int n = snprintf(b, sizeof b, "[%llu.%06llu t%d] ", (unsigned long long)(sim_now() / SEC),
                     (unsigned long long)(sim_now() % SEC / 1000), cur ? cur->id : -1);
    int m = vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap);
    if (m > (int)sizeof b - n - 3) m = (int)sizeof b - n - 3;
    if (hash) { u64 h = 0; for (int i = n; i < n + m; i++) h = h * 131 + (u8)b[i]; sim_hash(h); }
    b[n + m] = 0;
    printable(b + n);
    b[n + m] = '\n';
    if (sim_verbose) { if (write(2, b, (size_t)(n + m + 1)) < 0) {} }
    tail_put(b, (size_t)(n + m + 1));
}
void sim_log(const char *fmt, ...) { int e = errno; va_list ap; va_start(ap, fmt); vlog(1, fmt, ap); va_end(ap); errno = e; }
static void note(const char *fmt, ...) { int e = errno; va_list ap; va_start(ap, fmt); vlog(0, fmt, ap); va_end(ap); errno = e; }

/* ------------------------------------------------------------- verdicts */
static u64 acc_total(void) { return acc_done + (u64)(cd_start - cd); }
u64 sim_now(void) { return vbase + acc_total() * ACC_NS; }
u64 sim_wall(void) { return sim_now() + rt_off; }
u64 sim_steps(void) { return steps; }
u64 sim_injected(void) { return injected; }
static struct { u64 end, dur; } *inj; static int ninj, capinj;
static void inj_add(u64 dur) {
    injected += dur;
    if (ninj == capinj) { capinj = capinj ? capinj * 2 : 256; inj = realloc(inj, sizeof *inj * (size_t)capinj); }
    inj[ninj].end = sim_now() + dur; inj[ninj++].dur = dur;
}
u64 sim_injected_since(u64 t) {
    u64 s = 0;
    for (int i = 0; i < ninj; i++) if (inj[i].end >= t) s += inj[i].dur;
    return s;
}

void run_exit(int status) {
    sim_running = 0;
    R->status = status;
    R->simtime = sim_now();
    R->steps = steps;
    R->accesses = acc_total();
    R->switches = switches;
    R->checks = sim_checks;
    R->threads = nthr;
    _exit(0);
}
static void btrace(void) {
    /* frame-pointer walk; addresses are resolved later by the runner */
    void **fp = __builtin_frame_address(0);
    uintptr_t lo = (uintptr_t)stacks, hi = lo + (uintptr_t)MAXSLOT * STACK_SIZE;
    for (int i = 0; i < 16; i++) {
        if ((uintptr_t)fp < lo || (uintptr_t)fp >= hi - 16) break;
        void *ra = fp[1];
        if (!ra) break;
        note("  at @%p", ra);
        if ((uintptr_t)fp[0] <= (uintptr_t)fp) break;
        fp = (void **)fp[0];
    }
}
void core_callers(void **ra, int n) {
    void **fp = __builtin_frame_address(0);
    uintptr_t lo = (uintptr_t)stacks, hi = lo + (uintptr_t)MAXSLOT * STACK_SIZE;
    int k = 0;
    for (int i = 0; k < n && i < n + 3; i++) {
        if ((uintptr_t)fp < lo || (uintptr_t)fp >= hi - 16) break;
        if (!fp[1]) break;
        if (i >= 3) ra[k++] = fp[1];
        if ((uintptr_t)fp[0] <= (uintptr_t)fp) break;
        fp = (void **)fp[0];
    }
    while (k < n) ra[k++] = 0;
}
void core_note_callers(u64 size, void **ra, int n) {
    note("  not freed: %llu bytes allocated", (unsigned long long)size);
    for (int i = 0; i < n; i++) if (ra[i]) note("    at @%p", ra[i]);
}
void sim_fail(const char *cls, const char *fmt, ...) {
    sim_running = 0;
    va_list ap;
    va_start(ap, fmt);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    printable(R->msg);
    va_end(ap);
    note("FAIL %s: %s", R->cls, R->msg);
    btrace();
    run_exit(RS_VIOL);
}
void sim_inconclusive(const char *why) {
    snprintf(R->msg, sizeof R->msg, "%s", why);
    note("INCONCLUSIVE %s", why);
    run_exit(RS_INCONC);
}
void sim_probe(const char *name) {
    for (int i = 0; i < R->nprobe; i++)
        if (!strcmp(R->probe[i].name, name)) { R->probe[i].n++; return; }
    if (R->nprobe < NPROBE) {
        snprintf(R->probe[R->nprobe].name, 40, "%s", name);
        R->probe[R->nprobe++].n = 1;
    }
}
void sim_mark_nontrivial(void) { R->nontrivial = 1; }
void sim_state(u64 h) {
    for (int i = 0; i < R->nstate; i++) if (R->state[i] == h) return;
    if (R->nstate < NSTATE) R->state[R->nstate++] = h;
}

/* ------------------------------------------------------------- decisions */
static struct { u64 key; u32 val; u8 used; } *dtab;
static u32 dmask;
static u32 dkinds[DK_MAX];
static const dec_t *rlist; static u32 nrlist;

static inline u64 dkey(int kind, int tid, u32 occ) { return ((u64)kind << 56) | ((u64)(u16)tid << 32) | occ; }
static u64 khash(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 29; return k; }
static void dtab_build(const dec_t *d, u32 n) {
    u32 cap = 64;
    while (cap < n * 2 + 2) cap *= 2;
    dtab = mmap(0, sizeof *dtab * cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dmask = cap - 1;
    for (u32 i = 0; i < n; i++) {
        u64 k = dkey(d[i].kind, d[i].tid, d[i].occ);
        u32 p = (u32)khash(k) & dmask;
        while (dtab[p].used && dtab[p].key != k) p = (p + 1) & dmask;
        dtab[p].key = k; dtab[p].val = d[i].val; dtab[p].used = 1;
        dkinds[d[i].kind]++;
    }
}
static u32 dlookup(int kind, int tid, u32 occ) {
    if (!dkinds[kind]) return 0;
    u64 k = dkey(kind, tid, occ);
    u32 p = (u32)khash(k) & dmask;
    while (dtab[p].used) { if (dtab[p].key == k) return dtab[p].val; p = (p + 1) & dmask; }
    return 0;
}
static void dlog(int kind, int tid, u32 occ, u32 val) {
    if (R->ndec >= MAXDEC) sim_inconclusive("decision log full");
    dec_t *d = &R->dec[R->ndec++];
    d->kind = (u8)kind; d->tid = (u16)tid; d->occ = occ; d->val = val; d->pad = 0;
    R->hash = mix(R->hash, dkey(kind, tid, occ) * 31 + val);
}
u32 sim_choose(int kind, u32 n) {
    u32 occ = cur->occ[kind]++, v;
    if (n <= 1) return 0;
    if (replaying) { v = dlookup(kind, cur->id, occ); if (v >= n) v = n - 1; }
    else v = (u32)(rnd() % n);
    if (v) dlog(kind, cur->id, occ, v);
    return v;
}
int sim_faults_allowed(void) { return sim_running && cur && cur->nofault == 0; }
u32 sim_fault_n(int kind, u32 n) {
    u32 occ = cur->occ[kind]++, v = 0;
    if (cur->nofault) return 0;
    if (replaying) { if (rates[kind]) { v = dlookup(kind, cur->id, occ); if (v > n) v = n; } }
    else if (rates[kind] && rnd() % 10000 < rates[kind]) v = 1 + (u32)(rnd() % n);
    if (v) { dlog(kind, cur->id, occ, v); R->faults[kind]++; }
    return v;
}
int sim_fault(int kind) { return (int)sim_fault_n(kind, 1); }
void sim_set_rate(int kind, u32 r) { rates[kind] = replaying ? (r || dkinds[kind] ? 1 : 0) : r; }
u32 sim_get_rate(int kind) { return rates[kind]; }
void sim_count_fault(int kind) { R->faults[kind]++; }
void sim_nofault_begin(void) { if (cur) cur->nofault++; }
void sim_nofault_end(void) { if (cur) cur->nofault--; }
static int frozen_off;
void thr_ready(thr_t *t);
void sim_faults_off(void) {
    for (int i = DK_FIRST_FAULT; i < DK_MAX; i++) rates[i] = 0;
    frozen_off = 1;
    for (int i = 0; i < nthr; i++) if (thrs[i]->stalled) thr_ready(thrs[i]);
    net_partition(0);
}

/* ------------------------------------------------------------- context switch */
void sim_switch(void **save_sp, void *load_sp);
__asm__(
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size sim_switch,.-sim_switch\n");

static u8 *tls_base, *tls_img; static size_t tls_size, tls_isize;
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *arg) {
    (void)sz; (void)arg;
    if (i->dlpi_name && i->dlpi_name[0]) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            const ElfW(Phdr) *p = &i->dlpi_phdr[k];
            size_t al = p->p_align ? p->p_align : 1;
            size_t sz2 = (p->p_memsz + al - 1) / al * al;
            uintptr_t tp;
            __asm__("movq %%fs:0,%0" : "=r"(tp));
            tls_base = (u8 *)(tp - sz2);
            tls_size = p->p_memsz;
            tls_img = (u8 *)(i->dlpi_addr + p->p_vaddr);
            tls_isize = p->p_filesz;
        }
    return 1;
}

static void (*root_fn)(const void *, size_t);
static int root_cb(struct dl_phdr_info *i, size_t sz, void *arg) {
    (void)sz; (void)arg;
    if (i->dlpi_name && i->dlpi_name[0]) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_W)) root_fn((void *)(i->dlpi_addr + p->p_vaddr), p->p_memsz);
    }
    return 1;
}
static __attribute__((noinline)) void root_stacks(void) {
    void *here = __builtin_frame_address(0);
    for (int i = 0; i < nthr; i++) {
        thr_t *t = thrs[i];
        if (t->tls) root_fn(t == cur ? tls_base : t->tls, tls_size);   /* ended threads too: caches kept per thread */
        if (t->state == TS_DONE || t->state == TS_KILLED) continue;
        root_fn(t->keys, sizeof t->keys);
        root_fn(&t->arg, sizeof t->arg);
        u8 *top = stacks + (size_t)(t->slot + 1) * STACK_SIZE, *sp = t == cur ? here : t->sp;
        root_fn(sp, (size_t)(top - sp));
    }
}
void core_roots(void (*f)(const void *, size_t)) {
    root_fn = f;
    dl_iterate_phdr(root_cb, 0);
    root_stacks();
}

static void acc_flush(void) {         /* fold the running slice into counters */
    u64 n = (u64)(cd_start - cd);
    acc_done += n;
    if (cur) cur->acc += n;
    cd_start = cd;
}
static void cd_arm(void) {            /* accesses until something may happen */
    acc_flush();
    u64 until = SLICE - (acc_done - acc_at_switch);
    if ((i64)until < 1) until = 1;
    if (!replaying) {
        if (next_mem != NEVER) {
            u64 m = next_mem > acc_done ? next_mem - acc_done : 1;
            if (m < until) until = m;
        }
    } else {
        while (cur->memidx < nrlist && !(rlist[cur->memidx].kind == DK_MEM && rlist[cur->memidx].tid == cur->id &&
                                         rlist[cur->memidx].occ > cur->acc)) cur->memidx++;
        if (cur->memidx < nrlist) {
            u64 m = rlist[cur->memidx].occ - cur->acc;
            if (m < until) until = m;
        }
    }
    cd = cd_start = (i64)until;
}
static void draw_next_mem(void) {
    if (replaying || cfg_mem_mean == 0) { next_mem = NEVER; return; }
    /* geometric-ish: uniform in [1, 2*mean) keeps the mean and is cheap */
    next_mem = acc_done + (u64)(cd_start - cd) + 1 + rnd() % (2 * cfg_mem_mean);
}

static void rq_add(thr_t *t) { t->rqpos = nrq; rq[nrq++] = t; }
static void rq_del(thr_t *t) { thr_t *l = rq[--nrq]; rq[t->rqpos] = l; l->rqpos = t->rqpos; t->rqpos = -1; }
static void tq_del(thr_t *t) { if (t->tqpos < 0) return; thr_t *l = tq[--ntq]; tq[t->tqpos] = l; l->tqpos = t->tqpos; t->tqpos = -1; }
static void gq_del(thr_t *t) { if (t->gqpos < 0) return; thr_t *l = gq[--ngq]; gq[t->gqpos] = l; l->gqpos = t->gqpos; t->gqpos = -1; }

void thr_ready(thr_t *t) {
    if (t->state != TS_ADDR && t->state != TS_GEN) return;
    tq_del(t); gq_del(t);
    t->state = TS_RUN;
    rq_add(t);
}

static void limit_check(void) {
    if (acc_done > limit_steps * 40) {
        sim_dump_threads();
        sim_fail("livelock", "no end after %llu memory accesses", (unsigned long long)acc_done);
    }
}
static void switch_to(thr_t *n) {
    if (n == cur) { acc_at_switch = acc_done + (u64)(cd_start - cd); cd_arm(); return; }
    acc_flush();
    limit_check();
    switches++;
    R->shash = mix(R->shash, ((u64)(cur ? cur->id : 0xffff) << 32) | (u64)n->id << 16 | (cur ? (cur->occ[DK_YIELD] & 0xffff) : 0));
    R->hash = mix(R->hash, sim_now() * 3 + (u64)n->id);
    thr_t *o = cur;
    static void *dead_sp;
    void **save = &dead_sp;
    if (o && o->state != TS_DONE && o->state != TS_KILLED) {
        save = &o->sp;
        o->err = errno;
        if (tls_size) memcpy(o->tls, tls_base, tls_size);
    }
    if (tls_size) memcpy(tls_base, n->tls, tls_size);
    errno = n->err;
    cur = n;
    acc_at_switch = acc_done;
    cd_arm();
    sim_switch(save, n->sp);
    /* back */
}

/* ------------------------------------------------------------- time */
void sim_event_at(u64 t) {
    if (nevh == capevh) {
        capevh = capevh ? capevh * 2 : 256;
        evh = realloc(evh, sizeof *evh * (size_t)capevh);
    }
    int i = nevh++;
    while (i && evh[(i - 1) / 2] > t) { evh[i] = evh[(i - 1) / 2]; i = (i - 1) / 2; }
    evh[i] = t;
}
static void evh_pop(void) {
    u64 x = evh[--nevh];
    int i = 0;
    for (;;) {
        int c = 2 * i + 1;
        if (c >= nevh) break;
        if (c + 1 < nevh && evh[c + 1] < evh[c]) c++;
        if (evh[c] >= x) break;
        evh[i] = evh[c]; i = c;
    }
    evh[i] = x;
}
static u64 eff_deadline(thr_t *t) {
    if (t->deadline == NEVER) return NEVER;
    if (!t->rt) return t->deadline;
    i64 d = (i64)(t->deadline - rt_off);
    return d < 0 ? 0 : (u64)d;
}
static void check_time(void) {
    u64 now = sim_now();
    if (now > limit_ns) { sim_dump_threads(); sim_fail("hang", "run not finished after %llu simulated seconds", (unsigned long long)(limit_ns / SEC)); }
    if (now < tq_min) return;
    tq_min = NEVER;
    for (int i = 0; i < ntq;) {
        thr_t *t = tq[i];
        u64 d = eff_deadline(t);
        if (d <= now) { thr_ready(t); continue; }
        if (d < tq_min) tq_min = d;
        i++;
    }
}
static void check_gen(void) {
    for (int i = 0; i < ngq;) {
        thr_t *t = gq[i];
        if (t->ready(t->rarg)) { thr_ready(t); continue; }
        i++;
    }
}
static void advance_to(u64 t) { u64 n = sim_now(); if (t > n) vbase += t - n; }
void sim_cost(u64 ns) { vbase += ns; }
static u64 wall_top; static u32 wall_jumps_n;
u64 sim_wall_max(void) { u64 w = sim_wall(); return w > wall_top ? w : wall_top; }
u32 sim_wall_jumps(void) { return wall_jumps_n; }
void sim_wall_jump(i64 ns) {
    wall_top = sim_wall_max();
    wall_jumps_n++;
    rt_off += (u64)ns;
    tq_min = 0;
    sim_hash((u64)ns);
    note("wall clock jumps by %lld ms", (long long)(ns / 1000000));
}

void sim_dump_threads(void) {
    for (int i = 0; i < nthr; i++) {
        thr_t *t = thrs[i];
        if (t->state == TS_DONE || t->state == TS_FREE || t->state == TS_KILLED) continue;
        note("thread t%d state=%s fn=@%p waddr=%p wkind=%d deadline=%lld", t->id,
             t->state == TS_RUN ? "runnable" : t->state == TS_ADDR ? "lock/cond" : "io/sleep", (void *)(uintptr_t)t->fn,
             t->waddr, t->wkind, t->deadline == NEVER ? -1ll : (long long)(eff_deadline(t) / 1000000));
        if (t != cur && t->sp) {
            void **fp = ((void **)t->sp)[5];
            uintptr_t lo = (uintptr_t)stacks, hi = lo + (uintptr_t)MAXSLOT * STACK_SIZE;
            for (int k = 0; k < 9; k++) {
                if ((uintptr_t)fp < lo || (uintptr_t)fp >= hi - 16) break;
                if (!fp[1]) break;
                note("    at @%p", fp[1]);
                if ((uintptr_t)fp[0] <= (uintptr_t)fp) break;
                fp = (void **)fp[0];
            }
        }
    }
}

static thr_t *default_next(void) {    /* next runnable id after the current one */
    thr_t *best = 0, *low = 0;
    int me = cur->id;
    for (int i = 0; i < nrq; i++) {
        thr_t *t = rq[i];
        if (!low || t->id < low->id) low = t;
        if (t->id > me && (!best || t->id < best->id)) best = t;
    }
    return best ? best : low;
}
static thr_t *pct_best(void) {
    thr_t *b = rq[0];
    for (int i = 1; i < nrq; i++) if (rq[i]->prio > b->prio) b = rq[i];
    return b;
}
static thr_t *by_id(u32 id) { return id < (u32)nthr && thrs[id]->state == TS_RUN ? thrs[id] : 0; }

/* the current thread cannot continue: choose who runs */
void reschedule(void) {
    for (;;) {
        check_time();
        check_gen();
        if (nrq) break;
        u64 next = NEVER;
        tq_min = NEVER;
        for (int i = 0; i < ntq; i++) {
            u64 d = eff_deadline(tq[i]);
            if (d < tq_min) tq_min = d;
        }
        next = tq_min;
        u64 now = sim_now();
        while (nevh && evh[0] <= now) evh_pop();
        if (nevh && evh[0] < next) next = evh[0];
        if (next == NEVER) {
            sim_dump_threads();
            sim_fail("deadlock", "no thread can make progress and nothing is pending");
        }
        advance_to(next);
    }
    thr_t *d = default_next(), *n = d;
    u32 occ = cur->occ[DK_BLOCK]++;
    if (replaying) {
        u32 v = dlookup(DK_BLOCK, cur->id, occ);
        if (v) { thr_t *x = by_id(v - 1); if (x) n = x; }
    } else if (nrq > 1) {
        if (policy == 1) n = pct_best();
        else if (rnd() % 1000 >= block_rr) n = rq[rnd() % (u64)nrq];
    }
    if (n != d) dlog(DK_BLOCK, cur->id, occ, (u32)n->id + 1);
    switch_to(n);
}

static void preempt_to(thr_t *n, int kind, u32 occ) {
    dlog(kind, cur->id, occ, (u32)n->id + 1);
    switch_to(n);
}

/* called when the access countdown reaches zero */
static void mem_slow(void) {
    acc_flush();
    u32 occ = (u32)cur->acc;
    if (replaying) {
        if (cur->memidx < nrlist && rlist[cur->memidx].occ == occ && rlist[cur->memidx].tid == cur->id &&
            rlist[cur->memidx].kind == DK_MEM) {
            u32 v = rlist[cur->memidx].val;
            cur->memidx++;
            thr_t *x = by_id(v - 1);
            if (x && x != cur) { preempt_to(x, DK_MEM, occ); return; }
        }
    } else if (acc_done >= next_mem) {
        draw_next_mem();
        if (cur->nofault == 0) {
            thr_t *x = 0;
            if (policy == 1) { cur->prio = prio_low--; x = pct_best(); }
            else if (nrq > 1) x = rq[rnd() % (u64)nrq];
            if (x && x != cur) { preempt_to(x, DK_MEM, occ); return; }
        }
    }
    if (acc_done - acc_at_switch >= SLICE) {   /* end of time slice */
        check_time(); check_gen();
        limit_check();
        if (policy == 1) cur->prio = prio_low--;
        thr_t *x = default_next();
        acc_at_switch = acc_done;
        if (x != cur) { switch_to(x); return; }
    }
    cd_arm();
}
static inline void access_tick(void) { if (__builtin_expect(--cd <= 0, 0)) mem_slow(); }
void sim_tick(void) { if (sim_running) access_tick(); }

static const i64 jumps[] = {1000, -1000, 10000, -10000, 3600000, -3600000, 60000, -60000, 86400000, -86400000};

/* synchronisation point */
void sim_point(int op, u64 obj) {
    (void)obj;
    if (!sim_running) return;
    thr_t *t = cur;
    steps++;
    vbase += 100;
    t->yields++;
    if (steps > limit_steps) { sim_dump_threads(); sim_fail("livelock", "no end after %llu steps", (unsigned long long)steps); }
    R->shash = mix(R->shash, (u64)t->id << 8 | (u64)op);
    if (rates[DK_STALL] || rates[DK_LEAP] || rates[DK_CLOCK]) {
        u32 v = sim_fault_n(DK_LEAP, 9);
        if (v) {
            static const u64 l[] = {1 * MS, 3 * MS, 10 * MS, 30 * MS, 100 * MS, 300 * MS, 1 * SEC, 2 * SEC, 5 * SEC};
            inj_add(l[v - 1]); vbase += l[v - 1];
        }
        v = sim_fault_n(DK_CLOCK, sizeof jumps / sizeof jumps[0]);
        if (v) sim_wall_jump(jumps[v - 1] * (i64)MS);
        v = sim_fault_n(DK_STALL, 8);
        if (v) {
            static const u64 l[] = {1 * MS, 5 * MS, 20 * MS, 60 * MS, 200 * MS, 600 * MS, 2 * SEC, 6 * SEC};
            inj_add(l[v - 1]);
            t->stalled = 1;
            sim_block(0, 0, sim_now() + l[v - 1]);
            t->stalled = 0;
        }
    } else {
        t->occ[DK_LEAP]++; t->occ[DK_CLOCK]++; t->occ[DK_STALL]++;
    }
    check_time();
    if (ngq) check_gen();
    u32 occ = t->occ[DK_YIELD]++;
    thr_t *n = 0;
    if (replaying) {
        u32 v = dlookup(DK_YIELD, t->id, occ);
        if (v) n = by_id(v - 1);
    } else if (t->nofault == 0) {
        if (policy == 1) {
            if (pct_left && steps >= pct_next) {
                pct_left--;
                pct_next = steps + 1 + rnd() % pct_span;
                t->prio = prio_low--;
            }
            n = pct_best();
        } else if (rnd() % 10000 < cfg_yield_rate) {
            n = rq[rnd() % (u64)nrq];
        }
    }
    if (n && n != t) preempt_to(n, DK_YIELD, occ);
}
void sim_yield(void) { sim_point(OP_HARNESS, 0); }

/* sched_yield and friends: always let somebody else run */
void sim_yield_hard(void) {
    sim_point(OP_SYS, 0);
    thr_t *t = cur;
    /* spinning threads: a yield loop costs more and more so that time passes */
    if (steps - t->last_yield <= 6 + (u64)nrq * 6) { if (t->consec < 320) t->consec++; } else t->consec = 0;
    t->last_yield = steps;
    vbase += 1000ull << (t->consec / 32);
    check_time(); check_gen();
    if (policy == 1) t->prio = prio_low--;
    thr_t *x = 0;
    u32 occ = t->occ[DK_BLOCK]++;
    thr_t *d = default_next();
    if (replaying) { u32 v = dlookup(DK_BLOCK, t->id, occ); if (v) x = by_id(v - 1); }
    else if (nrq > 1 && rnd() % 2) x = policy == 1 ? pct_best() : rq[rnd() % (u64)nrq];
    if (!x) x = d;
    if (x != d) dlog(DK_BLOCK, t->id, occ, (u32)x->id + 1);
    if (x == t) {
        /* nobody else can run: time passes until somebody can */
        vbase += 50000;
    }
    switch_to(x);
}

/* ------------------------------------------------------------- blocking */
static void enqueue_timed(thr_t *t) {
    if (t->deadline != NEVER) {
        t->tqpos = ntq; tq[ntq++] = t;
        u64 d = eff_deadline(t);
        if (d < tq_min) tq_min = d;
    }
}
void block_addr(const void *addr, int kind, u64 deadline, int rt) {
    thr_t *t = cur;
    static u64 seq;
    t->waddr = addr; t->wkind = kind; t->deadline = deadline; t->rt = rt; t->wseq = ++seq;
    t->signalled = 0;
    t->state = TS_ADDR;
    rq_del(t);
    enqueue_timed(t);
    reschedule();
    t->waddr = 0;
}
void sim_block(int (*ready)(void *), void *arg, u64 deadline) {
    thr_t *t = cur;
    t->ready = ready; t->rarg = arg; t->deadline = deadline; t->rt = 0;
    t->waddr = 0; t->wkind = 0;
    t->state = TS_GEN;
    rq_del(t);
    if (ready) { t->gqpos = ngq; gq[ngq++] = t; }
    enqueue_timed(t);
    reschedule();
}
int sim_wait_until(int (*ready)(void *), void *arg, u64 timeout) {
    u64 dl = timeout == NEVER ? NEVER : sim_now() + timeout;
    sim_point(OP_HARNESS, 0);
    if (!ready(arg)) sim_block(ready, arg, dl);
    return ready(arg) != 0;
}
int sim_poll_until(int (*fn)(void *), void *arg, u64 timeout, u64 step) {
    u64 dl = sim_now() + timeout;
    for (;;) {
        if (fn(arg)) return 1;
        if (sim_now() >= dl) return 0;
        sim_sleep_ns(step);
    }
}
void sim_sleep_ns(u64 ns) {
    sim_point(OP_TIME, 0);
    sim_block(0, 0, sim_now() + ns);
}

/* ------------------------------------------------------------- threads */
static void thr_main(void) {
    thr_t *t = cur;
    t->ret = t->fn(t->arg);
    pt_thread_exit(t);
    thr_exit_current();
}
static int cmp_free;
thr_t *thr_new(void *(*fn)(void *), void *arg) {
    if (nthr >= MAXTHR) sim_inconclusive("too many threads");
    (void)cmp_free;
    int slot;
    if (n_free_slots) slot = free_slots[--n_free_slots];
    else { if (top_slot >= MAXSLOT) sim_inconclusive("too many live threads"); slot = top_slot++; }
    thr_t *t = calloc(1, sizeof *t);
    t->id = nthr; thrs[nthr++] = t;
    t->slot = slot;
    t->fn = fn; t->arg = arg;
    t->deadline = NEVER; t->rqpos = t->tqpos = t->gqpos = -1;
    t->joiner = -1;
    t->group = cur ? cur->group : 0;
    u8 *top = stacks + (size_t)(slot + 1) * STACK_SIZE;
    if (tls_size) { t->tls = calloc(1, tls_size); memcpy(t->tls, tls_img, tls_isize); }
    void **sp = (void **)(top - 64);
    *--sp = 0;                       /* fake return address, keeps alignment */
    *--sp = (void *)(uintptr_t)thr_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp;
    t->state = TS_RUN;
    t->prio = 0;
    if (!replaying) t->prio = (1ull << 40) + (rnd() & 0xffffffffull);
    rq_add(t);
    return t;
}
void thr_exit_current(void) {
    thr_t *t = cur;
    acc_flush();
    rq_del(t);
    t->state = TS_DONE;
    if (tls_size) memcpy(t->tls, tls_base, tls_size);   /* what the thread leaves behind in its variables */
    free_slots[n_free_slots++] = t->slot;
    for (int i = 0; i < nthr; i++)
        if (thrs[i]->state == TS_ADDR && thrs[i]->waddr == t) thr_ready(thrs[i]);
    sim_hash(0x77000 + (u64)t->id);
    if (t->id == 0) run_exit(RS_OK);
    reschedule();
    __builtin_unreachable();
}
struct spawn { void (*fn)(void *); void *arg; };
static void *spawn_main(void *p) { struct spawn s = *(struct spawn *)p; free(p); s.fn(s.arg); return 0; }
int sim_spawn(void (*fn)(void *), void *arg) {
    struct spawn *s = malloc(sizeof *s);
    s->fn = fn; s->arg = arg;
    thr_t *t = thr_new(spawn_main, s);
    int id = t->id;
    sim_point(OP_THREAD, 0);
    return id;
}
void sim_join(int id) {
    sim_point(OP_THREAD, 0);
    while (thrs[id]->state != TS_DONE && thrs[id]->state != TS_KILLED) block_addr(thrs[id], 9, NEVER, 0);
}
int sim_join_for(int id, u64 ns) {
    u64 dl = sim_now() + ns;
    sim_point(OP_THREAD, 0);
    while (thrs[id]->state != TS_DONE && thrs[id]->state != TS_KILLED) {
        if (sim_now() >= dl) return 0;
        block_addr(thrs[id], 9, dl, 0);
    }
    return 1;
}
int sim_self(void) { return cur->id; }
int sim_alive(int id) { return thrs[id]->state != TS_DONE && thrs[id]->state != TS_KILLED; }
/* waits in a condition variable or for a socket */
int sim_waiting(int id) { thr_t *t = thrs[id]; return (t->state == TS_ADDR && t->wkind == CORE_W_COND) || (t->state == TS_GEN && t->ready); }
int sim_threads_alive(void) { int n = 0; for (int i = 1; i < nthr; i++) n += sim_alive(i); return n; }
int sim_threads_created(void) { return nthr; }
void sim_group(int g) { cur->group = g; }
int sim_group_alive(int g) { int n = 0; for (int i = 0; i < nthr; i++) n += thrs[i]->group == g && sim_alive(i); return n; }
void sim_kill_group(int g) {
    int self = 0;
    for (int i = 0; i < nthr; i++) {
        thr_t *t = thrs[i];
        if (t->group != g || !sim_alive(i)) continue;
        if (t->state == TS_RUN) rq_del(t);
        tq_del(t); gq_del(t);
        t->state = TS_KILLED;
        if (t == cur) self = 1; else free_slots[n_free_slots++] = t->slot;
        for (int k = 0; k < nthr; k++)
            if (thrs[k]->state == TS_ADDR && thrs[k]->waddr == t) thr_ready(thrs[k]);
    }
    sim_hash(0x88000 + (u64)g);
    if (self) { acc_flush(); reschedule(); __builtin_unreachable(); }
}

/* ------------------------------------------------------------- repository globals */
extern u8 __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak));
extern u8 __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak));
static u8 *data_copy;
void sim_globals_reset(void) {
    memcpy(__start_repo_data, data_copy, (size_t)(__stop_repo_data - __start_repo_data));
    memset(__start_repo_bss, 0, (size_t)(__stop_repo_bss - __start_repo_bss));
}
static void globals_save(void) {
    size_t n = (size_t)(__stop_repo_data - __start_repo_data);
    data_copy = malloc(n + 1);
    memcpy(data_copy, __start_repo_data, n);
}

/* ------------------------------------------------------------- run set-up */
void sim_limit(u64 ns, u64 st) { limit_ns = ns; limit_steps = st; }

int sim_configure(u64 mask) {
    /* scheduling: the values drawn here only steer random mode; in replay the
     * decisions themselves are given */
    static const u64 means[] = {0, 20, 60, 200, 700, 2500, 10000, 50000};
    static const u64 yr[] = {50, 200, 600, 1500, 3000, 5000};
    policy = (int)(C(4) == 3);
    cfg_mem_mean = means[C(8)];
    cfg_yield_rate = yr[C(6)];
    block_rr = C(2) ? 0 : 500;
    pct_left = (int)C(6);
    { static const u64 sp[] = {20, 100, 400, 1500, 6000}; pct_span = sp[C(5)]; pct_next = steps + 1 + pct_span / 2; }
    if (policy == 1 && cfg_mem_mean && cfg_mem_mean < 700) cfg_mem_mean = 2500;
    heap_config((int)C(3));
    int faulty = C(4) != 0;
    R->faulty = faulty;
    for (int k = DK_FIRST_FAULT; k < DK_MAX; k++) {
        u32 on = C(2), lv = C(4);
        u32 r = 0;
        if ((mask & F(k)) && faulty && on) {
            static const u32 rt[4] = {20, 100, 400, 1500};
            r = rt[lv];
            if (k == DK_STALL || k == DK_LEAP || k == DK_CLOCK) { static const u32 q[4] = {2, 8, 25, 60}; r = q[lv]; }
            if (k == DK_OOM) { static const u32 q[4] = {3, 20, 80, 300}; r = q[lv]; }
            if (k == DK_RESET) { static const u32 q[4] = {10, 50, 150, 400}; r = q[lv]; }
        }
        sim_set_rate(k, (mask & F(k)) ? r : 0);
        if (replaying && !(mask & F(k))) rates[k] = 0;
    }
    draw_next_mem();
    cd_arm();
    return faulty;
}

static void on_sig(int sig, siginfo_t *si, void *uc) {
    if (!sim_running && sig != SIGALRM) { /* crash inside the simulator itself */
        char b[] = "simulator crashed\n";
        if (write(2, b, sizeof b - 1) < 0) {}
    }
    int was = sim_running;
    sim_running = 0;
    if (sig == SIGALRM || sig == SIGVTALRM) {
        snprintf(R->msg, sizeof R->msg, "wall-clock limit for one run reached");
        note("wall-clock limit reached");
        run_exit(RS_TIMEOUT);
    }
    ucontext_t *u = uc;
    snprintf(R->cls, sizeof R->cls, "crash-signal-%d", sig);
    snprintf(R->msg, sizeof R->msg, "signal %d in thread t%d", sig, cur ? cur->id : -1);
    note("FAIL signal %d address %p", sig, si->si_addr);
    void *pc = (void *)u->uc_mcontext.gregs[REG_RIP];
    note("  at @%p", pc);
    void **fp = (void **)u->uc_mcontext.gregs[REG_RBP];
    uintptr_t lo = (uintptr_t)stacks, hi = lo + (uintptr_t)MAXSLOT * STACK_SIZE;
    for (int i = 0; i < 16; i++) {
        if ((uintptr_t)fp < lo || (uintptr_t)fp >= hi - 16) break;
        if (!fp[1]) break;
        note("  at @%p", fp[1]);
        if ((uintptr_t)fp[0] <= (uintptr_t)fp) break;
        fp = (void **)fp[0];
    }
    run_exit(was ? RS_VIOL : RS_ERROR);
}

void sim_memory_checked(void (*fn)(void)) {
    sim_oom_never();
    u64 s0 = sim_alloc_seq();
    fn();
    sim_faults_off();
    sim_sleep_ns(5 * SEC);            /* detached threads end */
    u32 n = sim_heap_lost(s0);
    CHECK(!n, "memory-lost", "%u blocks of memory are still allocated although nothing refers to them any more", n);
}
static void (*main_fn)(void);
static void *main_thread(void *a) { (void)a; main_fn(); return 0; }

void core_run(void (*fn)(void), u64 seed, const dec_t *replay, u32 nreplay, int verbose) {
    static u8 alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGVTALRM, SIGTRAP};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);

    __asm__ volatile("movq %0,%%fs:0x28" : : "r"(0x5a17c0de00c0ffeeull)); /* same stack canary in every process */
    rng_seed(seed);
    sim_verbose = verbose;
    replaying = replay != 0;
    rlist = replay; nrlist = nreplay;
    if (replaying) dtab_build(replay, nreplay);
    stacks = mmap((void *)0x300000000000ull, (size_t)MAXSLOT * STACK_SIZE, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stacks == MAP_FAILED) { perror("stacks"); _exit(3); }
    dl_iterate_phdr(phdr_cb, 0);
    globals_save();
    R->ndec = 0; R->tail_len = 0; R->status = RS_NONE; R->hash = R->shash = 1; R->nprobe = 0; R->nstate = 0;
    R->nontrivial = 0; R->faulty = 0; R->nevents = 0; R->cls[0] = R->msg[0] = 0;
    memset(R->faults, 0, sizeof R->faults);
    limit_ns = 3600 * SEC; limit_steps = 3000000;
    tq_min = NEVER;
    vbase = 1000 * SEC;               /* monotonic clock does not start at zero */
    rt_off = 1700000000ull * SEC;
    next_mem = NEVER;
    policy = 0; cfg_yield_rate = 0; block_rr = 1000;
    prio_low = 1ull << 39;
    heap_init();
    net_init();
    disk_init();
    misc_init();
    pt_init();
    main_fn = fn;
    thr_t *t = thr_new(main_thread, 0);
    /* enter the first coroutine; the original stack is never resumed */
    if (tls_size) memcpy(tls_base, t->tls, tls_size);
    cur = t;
    cd = cd_start = SLICE;
    cd_arm();
    sim_running = 1;
    void *dummy;
    sim_switch(&dummy, t->sp);
    __builtin_unreachable();
}
