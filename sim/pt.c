/* pthreads, on the coroutine scheduler. State lives inside the caller's
 * objects (all-zero is the static initialiser), so using a destroyed or freed
 * object behaves like using that memory. */
#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

enum { W_MUTEX = 1, W_COND = CORE_W_COND, W_RD, W_WR, W_SEM, W_ONCE, W_BARRIER };

typedef struct { u32 owner, count, nwait, pad; u32 kind; } mtx_t;          /* kind where glibc keeps it */
typedef struct { u32 nwait, clock, tag, pad; } cnd_t;
typedef struct { u32 readers, writer, nwait, wwait; } rwl_t;
_Static_assert(sizeof(mtx_t) <= sizeof(pthread_mutex_t), "mutex");
_Static_assert(sizeof(cnd_t) <= sizeof(pthread_cond_t), "cond");
_Static_assert(sizeof(rwl_t) <= sizeof(pthread_rwlock_t), "rwlock");

void sim_yield_hard(void);

static void wake_all(const void *a, int kind) {
    for (int i = 0; i < nthr; i++)
        if (thrs[i]->state == TS_ADDR && thrs[i]->waddr == a && (kind == 0 || thrs[i]->wkind == kind)) thr_ready(thrs[i]);
}
static void chk(const void *p, size_t n, const char *w) { sim_check_range(p, n, 1, w); }

/* ---- mutex ---- */
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    chk(m, sizeof *m, "mutex init");
    memset(m, 0, sizeof *m);
    ((mtx_t *)m)->kind = a ? (u32) * (const int *)a : 0;
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
    chk(m, sizeof *m, "mutex destroy");
    sim_point(OP_LOCK, (u64)m);
    if (((mtx_t *)m)->owner) return EBUSY;
    return 0;
}
static void mtx_acquire(pthread_mutex_t *pm) {
    mtx_t *m = (mtx_t *)pm;
    while (m->owner) {
        m->nwait++;
        block_addr(pm, W_MUTEX, NEVER, 0);
        chk(pm, sizeof *pm, "mutex lock");
        m->nwait--;
    }
    m->owner = (u32)cur->id + 1;
    m->count = 1;
}
int sim_pthread_mutex_lock(pthread_mutex_t *pm) {
    chk(pm, sizeof *pm, "mutex lock");
    sim_point(OP_LOCK, (u64)pm);
    chk(pm, sizeof *pm, "mutex lock");
    mtx_t *m = (mtx_t *)pm;
    if (m->owner == (u32)cur->id + 1) {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    mtx_acquire(pm);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *pm) {
    chk(pm, sizeof *pm, "mutex trylock");
    sim_point(OP_LOCK, (u64)pm);
    chk(pm, sizeof *pm, "mutex trylock");
    mtx_t *m = (mtx_t *)pm;
    if (m->owner) {
        if (m->owner == (u32)cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        return EBUSY;
    }
    m->owner = (u32)cur->id + 1; m->count = 1;
    return 0;
}
static void mtx_release(pthread_mutex_t *pm) {
    mtx_t *m = (mtx_t *)pm;
    m->owner = 0; m->count = 0;
    if (m->nwait) wake_all(pm, W_MUTEX);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *pm) {
    chk(pm, sizeof *pm, "mutex unlock");
    mtx_t *m = (mtx_t *)pm;
    u32 k = m->kind & 3;
    if (k == PTHREAD_MUTEX_RECURSIVE || k == PTHREAD_MUTEX_ERRORCHECK) {
        if (m->owner != (u32)cur->id + 1) return EPERM;
        if (--m->count) return 0;
    }
    mtx_release(pm);
    sim_point(OP_UNLOCK, (u64)pm);
    return 0;
}

/* ---- condition variables ---- */
int sim_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { (void)a; return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { *(int *)a = c == CLOCK_MONOTONIC; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    chk(c, sizeof *c, "cond init");
    memset(c, 0, sizeof *c);
    ((cnd_t *)c)->clock = a ? (u32) * (const int *)a : 0;
    return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) {
    chk(c, sizeof *c, "cond destroy");
    sim_point(OP_LOCK, (u64)c);
    /* glibc waits until nobody uses the object */
    chk(c, sizeof *c, "cond destroy");
    return 0;
}
static u64 ts_ns(const struct timespec *t) {
    if (t->tv_sec < 0) return 0;
    return (u64)t->tv_sec * SEC + (u64)t->tv_nsec;
}
static int cond_wait(pthread_cond_t *pc, pthread_mutex_t *pm, u64 deadline, int rt) {
    chk(pc, sizeof *pc, "cond wait");
    chk(pm, sizeof *pm, "cond wait");
    sim_point(OP_WAIT, (u64)pc);
    chk(pc, sizeof *pc, "cond wait");
    cnd_t *c = (cnd_t *)pc;
    mtx_t *m = (mtx_t *)pm;
    u32 saved = m->count ? m->count : 1;
    int spurious = sim_fault(DK_SPURIOUS);
    c->nwait++;
    m->owner = 0; m->count = 0;
    if (m->nwait) wake_all(pm, W_MUTEX);
    int r = 0;
    if (spurious) {
        sim_yield_hard();
        chk(pc, sizeof *pc, "cond wait");
        c->nwait--;
    } else {
        block_addr(pc, W_COND, deadline, rt);
        if (!cur->signalled) {
            r = ETIMEDOUT;
            chk(pc, sizeof *pc, "cond wait");
            c->nwait--;
        }
    }
    chk(pm, sizeof *pm, "cond wait");
    mtx_acquire(pm);
    m->count = saved;
    return r;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, NEVER, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    chk(c, sizeof *c, "cond wait");
    return cond_wait(c, m, ts_ns(t), !((cnd_t *)c)->clock);
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait(c, m, ts_ns(t), k != CLOCK_MONOTONIC);
}
static int waiters(const void *a, int kind, thr_t **o, int max) {
    int n = 0;
    for (int i = 0; i < nthr && n < max; i++)
        if (thrs[i]->state == TS_ADDR && thrs[i]->waddr == a && thrs[i]->wkind == kind) {
            int k = n++;
            while (k && o[k - 1]->wseq > thrs[i]->wseq) { o[k] = o[k - 1]; k--; }
            o[k] = thrs[i];
        }
    return n;
}
int sim_pthread_cond_signal(pthread_cond_t *pc) {
    chk(pc, sizeof *pc, "cond signal");
    sim_point(OP_SIGNAL, (u64)pc);
    chk(pc, sizeof *pc, "cond signal");
    cnd_t *c = (cnd_t *)pc;
    if (c->nwait) {
        thr_t *w[2048];
        int n = waiters(pc, W_COND, w, 2048);
        if (n) {
            u32 k = n > 1 ? sim_choose(DK_WAKE, (u32)n) : 0;
            w[k]->signalled = 1;
            c->nwait--;
            thr_ready(w[k]);
        }
    }
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *pc) {
    chk(pc, sizeof *pc, "cond broadcast");
    sim_point(OP_SIGNAL, (u64)pc);
    chk(pc, sizeof *pc, "cond broadcast");
    cnd_t *c = (cnd_t *)pc;
    if (c->nwait)
        for (int i = 0; i < nthr; i++)
            if (thrs[i]->state == TS_ADDR && thrs[i]->waddr == pc && thrs[i]->wkind == W_COND) {
                thrs[i]->signalled = 1;
                c->nwait--;
                thr_ready(thrs[i]);
            }
    return 0;
}

/* ---- read-write locks (glibc default: readers preferred) ---- */
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; chk(l, sizeof *l, "rwlock init"); memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { chk(l, sizeof *l, "rwlock destroy"); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *pl) {
    chk(pl, sizeof *pl, "rwlock rdlock");
    sim_point(OP_RW, (u64)pl);
    chk(pl, sizeof *pl, "rwlock rdlock");
    rwl_t *l = (rwl_t *)pl;
    if (l->writer == (u32)cur->id + 1) return EDEADLK;
    while (l->writer) { l->nwait++; block_addr(pl, W_RD, NEVER, 0); chk(pl, sizeof *pl, "rwlock rdlock"); l->nwait--; }
    l->readers++;
    return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *pl) {
    chk(pl, sizeof *pl, "rwlock tryrdlock");
    sim_point(OP_RW, (u64)pl);
    chk(pl, sizeof *pl, "rwlock tryrdlock");
    rwl_t *l = (rwl_t *)pl;
    if (l->writer) return EBUSY;
    l->readers++;
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *pl) {
    chk(pl, sizeof *pl, "rwlock wrlock");
    sim_point(OP_RW, (u64)pl);
    chk(pl, sizeof *pl, "rwlock wrlock");
    rwl_t *l = (rwl_t *)pl;
    if (l->writer == (u32)cur->id + 1) return EDEADLK;
    while (l->writer || l->readers) { l->nwait++; block_addr(pl, W_WR, NEVER, 0); chk(pl, sizeof *pl, "rwlock wrlock"); l->nwait--; }
    l->writer = (u32)cur->id + 1;
    return 0;
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *pl) {
    chk(pl, sizeof *pl, "rwlock trywrlock");
    sim_point(OP_RW, (u64)pl);
    chk(pl, sizeof *pl, "rwlock trywrlock");
    rwl_t *l = (rwl_t *)pl;
    if (l->writer || l->readers) return EBUSY;
    l->writer = (u32)cur->id + 1;
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t *pl) {
    chk(pl, sizeof *pl, "rwlock unlock");
    rwl_t *l = (rwl_t *)pl;
    if (l->writer) l->writer = 0;
    else if (l->readers) l->readers--;
    if (l->nwait) { wake_all(pl, W_RD); wake_all(pl, W_WR); }
    sim_point(OP_RW, (u64)pl);
    return 0;
}

/* ---- spinlocks, semaphores, barriers: used if the code ever does ---- */
int sim_pthread_spin_init(pthread_spinlock_t *s, int sh) { (void)sh; *(volatile int *)s = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *s) { (void)s; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *s) { chk((void *)(uintptr_t)s, 4, "spin trylock"); sim_point(OP_LOCK, (u64)s); if (*(volatile int *)s) return EBUSY; *(volatile int *)s = 1; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *s) { while (sim_pthread_spin_trylock(s)) sim_yield_hard(); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *s) { chk((void *)(uintptr_t)s, 4, "spin unlock"); *(volatile int *)s = 0; sim_point(OP_UNLOCK, (u64)s); return 0; }
int sim_sem_init(sem_t *s, int p, unsigned v) { (void)p; memset(s, 0, sizeof *s); *(u32 *)s = v; return 0; }
int sim_sem_destroy(sem_t *s) { (void)s; return 0; }
int sim_sem_post(sem_t *s) { chk(s, sizeof *s, "sem post"); sim_point(OP_SIGNAL, (u64)s); ++*(u32 *)s; wake_all(s, W_SEM); return 0; }
int sim_sem_wait(sem_t *s) { chk(s, sizeof *s, "sem wait"); sim_point(OP_WAIT, (u64)s); while (!*(u32 *)s) { block_addr(s, W_SEM, NEVER, 0); chk(s, sizeof *s, "sem wait"); } --*(u32 *)s; return 0; }
int sim_sem_trywait(sem_t *s) { chk(s, sizeof *s, "sem wait"); sim_point(OP_WAIT, (u64)s); if (!*(u32 *)s) { errno = EAGAIN; return -1; } --*(u32 *)s; return 0; }
int sim_sem_timedwait(sem_t *s, const struct timespec *t) {
    chk(s, sizeof *s, "sem wait");
    sim_point(OP_WAIT, (u64)s);
    while (!*(u32 *)s) {
        if (sim_wall() >= ts_ns(t)) { errno = ETIMEDOUT; return -1; }
        block_addr(s, W_SEM, ts_ns(t), 1);
        chk(s, sizeof *s, "sem wait");
    }
    --*(u32 *)s;
    return 0;
}

/* ---- threads ---- */
static struct { int used; void (*dtor)(void *); } keytab[64];
void pt_init(void) { memset(keytab, 0, sizeof keytab); }
#define PT(id) ((pthread_t)((u64)(id) + 0x10000))
#define ID(pt) ((int)((u64)(pt) - 0x10000))
int sim_pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    sim_point(OP_THREAD, 0);
    if (sim_fault(DK_THREAD)) return EAGAIN;
    thr_t *t = thr_new(fn, arg);
    (void)a;
    chk(o, sizeof *o, "pthread_create");
    *o = PT(t->id);
    sim_hash(0x55000 + (u64)t->id);
    sim_point(OP_THREAD, 0);
    return 0;
}
int sim_pthread_join(pthread_t p, void **ret) {
    int id = ID(p);
    sim_point(OP_THREAD, 0);
    if (id < 0 || id >= nthr) sim_fail("bad-join", "join of a handle that never was a thread");
    thr_t *t = thrs[id];
    if (t == cur) return EDEADLK;
    if (t->detached) {
        if (t->detached == 2) sim_fail("double-join", "a thread is joined twice");
        return EINVAL;
    }
    if (t->joiner >= 0 && t->joiner != cur->id) return EINVAL;
    t->joiner = cur->id;
    while (t->state != TS_DONE && t->state != TS_KILLED) block_addr(t, 9, NEVER, 0);
    t->detached = 2;
    if (ret) *ret = t->ret;
    return 0;
}
int sim_pthread_detach(pthread_t p) { int id = ID(p); if (id < 0 || id >= nthr) return ESRCH; if (!thrs[id]->detached) thrs[id]->detached = 1; return 0; }
pthread_t sim_pthread_self(void) { return PT(cur->id); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { cur->ret = r; pt_thread_exit(cur); thr_exit_current(); }
int sim_pthread_setname_np(pthread_t p, const char *n) { (void)p; (void)n; return 0; }
int sim_pthread_cancel(pthread_t p) { (void)p; return 0; }
int sim_pthread_kill(pthread_t p, int s) { (void)p; (void)s; return 0; }
int sim_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { (void)a; (void)n; return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int n) { (void)a; (void)n; return 0; }
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
    for (unsigned i = 1; i < 64; i++) if (!keytab[i].used) { keytab[i].used = 1; keytab[i].dtor = d; *k = i; for (int j = 0; j < nthr; j++) thrs[j]->keys[i] = 0; return 0; }
    return EAGAIN;
}
int sim_pthread_key_delete(pthread_key_t k) { if (k >= 64 || !keytab[k].used) return EINVAL; keytab[k].used = 0; keytab[k].dtor = 0; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { if (k >= 64) return 0; return cur->keys[k]; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= 64 || !keytab[k].used) return EINVAL; cur->keys[k] = (void *)(uintptr_t)v; return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
    sim_point(OP_LOCK, (u64)o);
    volatile int *s = (volatile int *)o;
    if (*s == 2) return 0;
    if (*s == 0) { *s = 1; f(); *s = 2; wake_all(o, W_ONCE); return 0; }
    while (*s != 2) block_addr((void *)o, W_ONCE, NEVER, 0);
    return 0;
}
void pt_thread_exit(thr_t *t) {
    for (int round = 0; round < 4; round++) {
        int any = 0;
        for (int i = 1; i < 64; i++)
            if (t->keys[i] && keytab[i].used && keytab[i].dtor) {
                void *v = t->keys[i];
                t->keys[i] = 0;
                any = 1;
                keytab[i].dtor(v);
            }
        if (!any) break;
    }
}
