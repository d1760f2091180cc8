/* Heap with shadow memory: detects invalid accesses of instrumented code,
 * injects allocation failures, and reuses memory in a controlled way. */
#define _GNU_SOURCE
#include "core.h"
#include <ctype.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <wchar.h>

#define ABASE 0x200000000000ull
#define ASIZE (8ull << 30)
#define SBASE 0x280000000000ull
#define LEFT 128
#define NRA 12
#define S_FREED 0xFD
#define S_LEFT 0xFA

static u8 *const arena = (u8 *)ABASE;
static u8 *const shadow = (u8 *)SBASE;
static u64 atop;
static int mode;                     /* 0 quarantine 1 LIFO reuse 2 small quarantine */
static u64 live_cnt, live_bytes, seqno;
static int oom_on, oom_never;
static u64 oom_first = NEVER; static u32 oom_count;

typedef struct { u32 magic; u32 cls; u64 size; u64 seq; u64 repo; void *ra[NRA]; } hdr_t;
static u64 *blk; static u32 nblk, capblk;      /* all blocks ever made */
static int by_repo;                             /* the next allocation is made by the code under test */
#define H_LIVE 0x51AB1234u
#define H_DEAD 0xDEADBEE1u

/* size classes: multiples of 16 up to 1 KB, then 4 per power of two */
#define NCLS 160
static u64 cls_size(u32 c) {
    if (c < 64) return 16 * (c + 1);
    u32 k = c - 64;
    u64 b = 1024ull << (k / 4);
    return b + (b / 4) * (k % 4 + 1);
}
static u32 cls_of(u64 n) {
    if (n <= 1024) return (u32)((n ? n - 1 : 0) / 16);
    u32 c = 64;
    while (cls_size(c) < n) c++;
    return c;
}
/* free blocks per class: circular queue of offsets */
typedef struct { u64 *v; u32 head, n, cap; u64 bytes; } fq_t;
static fq_t fq[NCLS];

void heap_init(void) {
    void *a = mmap(arena, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(shadow, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED) { perror("heap"); _Exit(3); }
    atop = 4096;
    seqno = 0;
    oom_on = 1; oom_never = 0;
}
void heap_config(int m) { mode = m; }
static inline int in_arena(uintptr_t a) { return a - ABASE < ASIZE; }
int sim_heap_contains(const void *p) { return in_arena((uintptr_t)p); }
u64 sim_heap_live_count(void) { return live_cnt; }
u64 sim_heap_live_bytes(void) { return live_bytes; }
void sim_oom_scope(int on) { oom_on = on; }
void sim_oom_never(void) { oom_never = 1; }
u64 sim_alloc_seq(void) { return seqno; }
static u64 oom_all;
u64 sim_alloc_failed(void) { return cur ? cur->oom_hits : 0; }
u64 sim_alloc_failed_any(void) { return oom_all; }
void sim_oom_at(u64 first, u32 count) { oom_first = first; oom_count = count; }

static void set_shadow(u64 off, u64 size) {
    memset(shadow + off / 8, 8, size / 8);
    if (size & 7) shadow[(off + size) / 8] = (u8)(size & 7);
}

static void new_block(u64 off) {
    if (nblk == capblk) { capblk = capblk ? capblk * 2 : 1024; blk = realloc(blk, sizeof *blk * capblk); }
    blk[nblk++] = off;
}
static __attribute__((noinline)) void set_owner(hdr_t *h) {
    h->repo = (u64)by_repo;
    by_repo = 0;
    if (h->repo) core_callers(h->ra, NRA); else h->ra[0] = 0;
}
/* blocks allocated by the code under test after a point in time and not freed */
u32 sim_heap_leaks(u64 since) {
    u32 n = 0;
    for (u32 i = 0; i < nblk; i++) {
        hdr_t *h = (hdr_t *)(arena + blk[i] - LEFT);
        if (h->magic != H_LIVE || h->seq <= since || !h->repo) continue;
        if (n++ < 8) core_note_callers(h->size, h->ra, NRA);
    }
    return n;
}

u32 sim_heap_leaks_count(u64 since) {
    u32 n = 0;
    for (u32 i = 0; i < nblk; i++) {
        hdr_t *h = (hdr_t *)(arena + blk[i] - LEFT);
        n += h->magic == H_LIVE && h->seq > since && h->repo;
    }
    return n;
}
/* Blocks allocated by the code after a point in time that nothing points to any more: marks what can be
 * reached from the variables of the program, of its threads and their stacks, and counts the rest. */
static int cmp_off(const void *a, const void *b) { u64 x = *(const u64 *)a, y = *(const u64 *)b; return x < y ? -1 : x > y; }
static u64 *mk_off; static u8 *mk_seen; static u32 mk_n, *mk_todo, mk_top;
static void mark_range(const void *p, size_t n) {
    const u64 *w = (const u64 *)(((uintptr_t)p + 7) & ~(uintptr_t)7);
    for (n /= 8; n; n--, w++) {
        if (!in_arena(*w)) continue;
        u64 off = *w - ABASE;
        u32 lo = 0, hi = mk_n;
        while (lo < hi) { u32 m = (lo + hi) / 2; if (mk_off[m] <= off) lo = m + 1; else hi = m; }
        if (!lo || mk_seen[lo - 1]) continue;
        hdr_t *h = (hdr_t *)(arena + mk_off[lo - 1] - LEFT);
        if (off > mk_off[lo - 1] + h->size) continue;
        mk_seen[lo - 1] = 1;
        mk_todo[mk_top++] = lo - 1;
    }
}
u32 sim_heap_lost(u64 since) {
    mk_off = malloc(sizeof *mk_off * (nblk + 1)); mk_seen = calloc(nblk + 1, 1); mk_todo = malloc(sizeof *mk_todo * (nblk + 1));
    mk_n = mk_top = 0;
    for (u32 i = 0; i < nblk; i++) if (((hdr_t *)(arena + blk[i] - LEFT))->magic == H_LIVE) mk_off[mk_n++] = blk[i];
    qsort(mk_off, mk_n, sizeof *mk_off, cmp_off);
    core_roots(mark_range);
    while (mk_top) {
        u64 off = mk_off[mk_todo[--mk_top]];
        mark_range(arena + off, ((hdr_t *)(arena + off - LEFT))->size);
    }
    u32 n = 0;
    for (u32 i = 0; i < mk_n; i++) {
        hdr_t *h = (hdr_t *)(arena + mk_off[i] - LEFT);
        if (mk_seen[i] || h->seq <= since || !h->repo) continue;
        if (n++ < 8) core_note_callers(h->size, h->ra, NRA);
    }
    free(mk_off); free(mk_seen); free(mk_todo);
    return n;
}

static void *alloc(u64 size, int zero) {
    u64 need = size ? size : 1;
    u32 c = cls_of(need);
    u64 cs = cls_size(c);
    fq_t *q = &fq[c];
    u64 off = 0;
    int fresh = 0;
    u32 keep = mode == 0 ? 4096 : mode == 2 ? 4 : 0;
    if (mode == 0 && q->bytes > (8u << 20)) keep = 0;
    if (q->n > keep) {
        if (mode == 1) off = q->v[(q->head + --q->n) % q->cap];
        else { off = q->v[q->head]; q->head = (q->head + 1) % q->cap; q->n--; }
        q->bytes -= cs;
    } else {
        off = atop + LEFT;
        atop += LEFT + cs + 16;
        if (atop > ASIZE) sim_inconclusive("simulated heap exhausted");
        fresh = 1;
        new_block(off);
    }
    hdr_t *h = (hdr_t *)(arena + off - LEFT);
    h->magic = H_LIVE; h->cls = c; h->size = size; h->seq = ++seqno; set_owner(h);
    if (fresh) memset(shadow + (off - LEFT) / 8, S_LEFT, LEFT / 8);
    else memset(shadow + off / 8, 0, cs / 8);
    set_shadow(off, need);
    if (!size) shadow[off / 8] = 0;
    void *p = arena + off;
    if (zero) { if (!fresh) memset(p, 0, size); }
    else if (size) memset(p, 0xA5, size < 512 ? size : 512);
    live_cnt++; live_bytes += size;
    return p;
}
static void release(void *p, const char *what) {
    uintptr_t a = (uintptr_t)p;
    if (!in_arena(a)) sim_fail("bad-free", "%s of a pointer that is not heap memory", what);
    hdr_t *h = (hdr_t *)(a - LEFT);
    if ((a & 15) || h->magic != H_LIVE) {
        if (h->magic == H_DEAD) sim_fail("double-free", "%s of memory that was already freed", what);
        sim_fail("bad-free", "%s of a pointer into the middle of something", what);
    }
    h->magic = H_DEAD;
    u64 cs = cls_size(h->cls), off = a - ABASE;
    memset(shadow + off / 8, S_FREED, cs / 8);
    if (mode != 1) memset(p, 0xDD, h->size < 256 ? h->size : 256);
    live_cnt--; live_bytes -= h->size;
    fq_t *q = &fq[h->cls];
    if (q->n == q->cap) {
        u32 nc = q->cap ? q->cap * 2 : 16;
        u64 *v = malloc(sizeof *v * nc);
        for (u32 i = 0; i < q->n; i++) v[i] = q->v[(q->head + i) % q->cap];
        free(q->v);
        q->v = v; q->cap = nc; q->head = 0;
    }
    q->v[(q->head + q->n++) % q->cap] = off;
    q->bytes += cs;
}

/* ---- access checks ---- */
static __attribute__((noinline)) void bad(uintptr_t a, size_t n, int write, const char *what) {
    if (!sim_running) return;
    u8 s = shadow[(a - ABASE) >> 3];
    if (s == 8 || (s < 8 && s > (a & 7))) {
        /* first bytes fine: find the offending one */
        uintptr_t e = a;
        while (e < a + n) {
            u8 t = shadow[(e - ABASE) >> 3];
            if (t != 8 && !(t < 8 && t > (e & 7))) { s = t; break; }
            e++;
        }
        if (e == a + n) return;
    }
    if (s == S_LEFT && !write) return;   /* the pool's free() peeks at the word before a block */
    sim_fail(s == S_FREED ? "use-after-free" : "out-of-bounds", "%s of %zu bytes of %s memory (%s)",
             write ? "write" : "read", n, s == S_FREED ? "freed" : "unallocated", what);
}
static inline void check(uintptr_t a, size_t n, int write, const char *what) {
    if (!in_arena(a)) {
        if (a < 4096 && n) {
            if (sim_running) sim_fail("null-deref", "%s through a null pointer (%s)", write ? "write" : "read", what);
        }
        return;
    }
    if (!n) return;
    u8 *s = shadow + ((a - ABASE) >> 3), *e = shadow + ((a + n - 1 - ABASE) >> 3);
    if (__builtin_expect(s == e, 1)) {
        if (*s == 8) return;
        if (*s < 8 && ((a & 7) + n) <= *s) return;
        bad(a, n, write, what);
        return;
    }
    for (u8 *x = s; x < e; x++) if (*x != 8) { bad(a, n, write, what); return; }
    if (*e == 8) return;
    if (*e < 8 && ((a + n - 1) & 7) + 1 <= *e) return;
    bad(a, n, write, what);
}
void sim_check_range(const void *p, size_t n, int write, const char *what) { check((uintptr_t)p, n, write, what); }
int sim_heap_live(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!in_arena(a)) return 0;
    for (size_t i = 0; i < n; i++) {
        u8 s = shadow[(a + i - ABASE) >> 3];
        if (!(s == 8 || (s < 8 && s > ((a + i) & 7)))) return 0;
    }
    return 1;
}

void sim_tick(void);
void sim_access(uintptr_t a, size_t n, int write, void *pc) {
    (void)pc;
    if (!sim_running) return;
    check(a, n, write, "memory access");
    sim_tick();
}

/* ---- allocation functions seen by the repository ---- */
static int fail_now(void) {
    if (seqno >= oom_first && seqno < oom_first + oom_count && oom_on && !oom_never && cur && !cur->nofault) {
        seqno++;
        sim_count_fault(DK_OOM);
        if (cur) cur->oom_hits++;
        oom_all++;
        return 1;
    }
    if (!oom_on || oom_never) { if (cur) cur->occ[DK_OOM]++; return 0; }
    if (!sim_fault(DK_OOM)) return 0;
    if (cur) cur->oom_hits++;
    oom_all++;
    return 1;
}
void *sim_malloc(size_t n) {
    if (n > ASIZE / 2) { errno = ENOMEM; return 0; }
    if (fail_now()) { errno = ENOMEM; return 0; }
    by_repo = 1; return alloc(n, 0);
}
void *sim_calloc(size_t a, size_t b) {
    if (b && a > ASIZE / 2 / b) { errno = ENOMEM; return 0; }
    if (fail_now()) { errno = ENOMEM; return 0; }
    by_repo = 1; return alloc(a * b, 1);
}
void sim_free(void *p) { if (p) release(p, "free"); }
static u64 size_of(void *p) {
    uintptr_t a = (uintptr_t)p;
    if (!in_arena(a)) sim_fail("bad-free", "realloc of a pointer that is not heap memory");
    hdr_t *h = (hdr_t *)(a - LEFT);
    if ((a & 15) || h->magic != H_LIVE) sim_fail(h->magic == H_DEAD ? "double-free" : "bad-free", "realloc of an invalid pointer");
    return h->size;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    u64 o = size_of(p);
    if (!n) { release(p, "realloc"); return 0; }
    if (n > ASIZE / 2 || fail_now()) { errno = ENOMEM; return 0; }
    by_repo = 1;
    void *q = alloc(n, 0);
    memcpy(q, p, o < n ? o : n);
    release(p, "realloc");
    return q;
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
    if (fail_now()) return ENOMEM;
    if (al <= 16) { by_repo = 1; *out = alloc(n, 0); return 0; }
    /* own block at the requested alignment, never reused */
    u64 off = (atop + LEFT + al - 1) / al * al;
    u32 c = cls_of(n ? n : 1);
    atop = off + cls_size(c) + 16;
    if (atop > ASIZE) sim_inconclusive("simulated heap exhausted");
    hdr_t *h = (hdr_t *)(arena + off - LEFT);
    by_repo = 1;
    h->magic = H_LIVE; h->cls = c; h->size = n; h->seq = ++seqno; new_block(off); set_owner(h);
    memset(shadow + (off - LEFT) / 8, S_LEFT, LEFT / 8);
    set_shadow(off, n ? n : 1);
    memset(arena + off, 0xA5, n < 512 ? n : 512);
    live_cnt++; live_bytes += n;
    *out = arena + off;
    return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { void *p = 0; int e = sim_posix_memalign(&p, al, n); if (e) { errno = e; return 0; } return p; }
size_t sim_malloc_usable_size(void *p) { return p ? size_of(p) : 0; }
void *simh_malloc(size_t n) { return alloc(n, 0); }
void *simh_calloc(size_t a, size_t b) { return alloc(a * b, 1); }
void *simh_realloc(void *p, size_t n) {
    if (!p) return alloc(n, 0);
    u64 o = size_of(p);
    void *q = alloc(n, 0);
    memcpy(q, p, o < n ? o : n);
    release(p, "realloc");
    return q;
}
char *simh_strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(alloc(n, 0), s, n); }

/* ---- string and memory functions with checks ---- */
static size_t cstrlen(const char *s, const char *what) {
    check((uintptr_t)s, 1, 0, what);
    size_t n = strlen(s);
    check((uintptr_t)s, n + 1, 0, what);
    return n;
}
static size_t cstrnlen(const char *s, size_t m, const char *what) {
    if (!m) return 0;
    check((uintptr_t)s, 1, 0, what);
    size_t n = strnlen(s, m);
    check((uintptr_t)s, n < m ? n + 1 : m, 0, what);
    return n;
}
#define TICK sim_tick()
void *sim_memcpy(void *d, const void *s, size_t n) { TICK; check((uintptr_t)s, n, 0, "memcpy"); check((uintptr_t)d, n, 1, "memcpy"); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { TICK; check((uintptr_t)s, n, 0, "memmove"); check((uintptr_t)d, n, 1, "memmove"); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { TICK; check((uintptr_t)d, n, 1, "memset"); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { TICK; check((uintptr_t)a, n, 0, "memcmp"); check((uintptr_t)b, n, 0, "memcmp"); return memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) {
    TICK;
    void *r = memchr(a, c, n);
    check((uintptr_t)a, r ? (size_t)((char *)r - (char *)a) + 1 : n, 0, "memchr");
    return r;
}
size_t sim_strlen(const char *s) { TICK; return cstrlen(s, "strlen"); }
size_t sim_strnlen(const char *s, size_t m) { TICK; return cstrnlen(s, m, "strnlen"); }
char *sim_strcpy(char *d, const char *s) { TICK; size_t n = cstrlen(s, "strcpy"); check((uintptr_t)d, n + 1, 1, "strcpy"); return memmove(d, s, n + 1); }
char *sim_strncpy(char *d, const char *s, size_t m) { TICK; cstrnlen(s, m, "strncpy"); check((uintptr_t)d, m, 1, "strncpy"); return strncpy(d, s, m); }
char *sim_strcat(char *d, const char *s) { TICK; size_t a = cstrlen(d, "strcat"), n = cstrlen(s, "strcat"); check((uintptr_t)d + a, n + 1, 1, "strcat"); memmove(d + a, s, n + 1); return d; }
char *sim_strncat(char *d, const char *s, size_t m) { TICK; size_t a = cstrlen(d, "strncat"), n = cstrnlen(s, m, "strncat"); check((uintptr_t)d + a, n + 1, 1, "strncat"); return strncat(d, s, m); }
int sim_strcmp(const char *a, const char *b) {
    TICK;
    check((uintptr_t)a, 1, 0, "strcmp"); check((uintptr_t)b, 1, 0, "strcmp");
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    check((uintptr_t)a, i + 1, 0, "strcmp"); check((uintptr_t)b, i + 1, 0, "strcmp");
    return (int)(u8)a[i] - (int)(u8)b[i];
}
int sim_strncmp(const char *a, const char *b, size_t n) {
    TICK;
    if (!n) return 0;
    size_t i = 0;
    while (i < n - 1 && a[i] && a[i] == b[i]) i++;
    check((uintptr_t)a, i + 1, 0, "strncmp"); check((uintptr_t)b, i + 1, 0, "strncmp");
    return (int)(u8)a[i] - (int)(u8)b[i];
}
int sim_strcasecmp(const char *a, const char *b) { TICK; cstrlen(a, "strcasecmp"); cstrlen(b, "strcasecmp"); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { TICK; cstrnlen(a, n, "strncasecmp"); cstrnlen(b, n, "strncasecmp"); return strncasecmp(a, b, n); }
char *sim_strchr(const char *s, int c) { TICK; cstrlen(s, "strchr"); return strchr(s, c); }
char *sim_strrchr(const char *s, int c) { TICK; cstrlen(s, "strrchr"); return strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { TICK; cstrlen(a, "strstr"); cstrlen(b, "strstr"); return strstr(a, b); }
char *sim_strpbrk(const char *a, const char *b) { TICK; cstrlen(a, "strpbrk"); return strpbrk(a, b); }
size_t sim_strspn(const char *a, const char *b) { TICK; cstrlen(a, "strspn"); return strspn(a, b); }
size_t sim_strcspn(const char *a, const char *b) { TICK; cstrlen(a, "strcspn"); return strcspn(a, b); }
char *sim_strdup(const char *s) {
    TICK;
    size_t n = cstrlen(s, "strdup") + 1;
    char *p = sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *sim_strndup(const char *s, size_t m) {
    TICK;
    size_t n = cstrnlen(s, m, "strndup");
    char *p = sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
static char *strtok_save;            /* one per process, as in libc */
char *sim_strtok_r(char *s, const char *d, char **sv) { TICK; if (s) cstrlen(s, "strtok"); return strtok_r(s, d, sv); }
char *sim_strtok(char *s, const char *d) { TICK; if (s) cstrlen(s, "strtok"); return strtok_r(s, d, &strtok_save); }
int sim_atoi(const char *s) { TICK; cstrlen(s, "atoi"); return atoi(s); }
long sim_atol(const char *s) { TICK; cstrlen(s, "atol"); return atol(s); }
double sim_atof(const char *s) { TICK; cstrlen(s, "atof"); return atof(s); }
long sim_strtol(const char *s, char **e, int b) { TICK; cstrlen(s, "strtol"); return strtol(s, e, b); }
unsigned long sim_strtoul(const char *s, char **e, int b) { TICK; cstrlen(s, "strtoul"); return strtoul(s, e, b); }
long long sim_strtoll(const char *s, char **e, int b) { TICK; cstrlen(s, "strtoll"); return strtoll(s, e, b); }
unsigned long long sim_strtoull(const char *s, char **e, int b) { TICK; cstrlen(s, "strtoull"); return strtoull(s, e, b); }
double sim_strtod(const char *s, char **e) { TICK; cstrlen(s, "strtod"); return strtod(s, e); }

static void fmt_out_check(char *d, size_t n, int r) {
    if (r < 0 || !n) return;
    size_t w = (size_t)r + 1;
    check((uintptr_t)d, w < n ? w : n, 1, "snprintf");
}
/* strings passed to printf are checked by walking the format */
void sim_fmt_check(const char *f, va_list ap0) {
    if (!sim_running) return;
    va_list ap;
    va_copy(ap, ap0);
    while (*f) {
        if (*f++ != '%') continue;
        if (*f == '%') { f++; continue; }
        int prec = -1, l = 0;
        while (*f && strchr("-+ #0'", *f)) f++;
        if (*f == '*') { (void)va_arg(ap, int); f++; } else while (isdigit((u8)*f)) f++;
        if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (isdigit((u8)*f)) prec = prec * 10 + (*f++ - '0'); } }
        while (*f && strchr("hlzjtL", *f)) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 1; if (*f == 'L') l = 2; f++; }
        switch (*f) {
        case 's': { const char *s = va_arg(ap, const char *); if (s) { if (prec >= 0) cstrnlen(s, (size_t)prec, "printf string"); else cstrlen(s, "printf string"); } break; }
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': if (l) (void)va_arg(ap, long); else (void)va_arg(ap, int); break;
        case 'c': (void)va_arg(ap, int); break;
        case 'p': (void)va_arg(ap, void *); break;
        case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': case 'a': if (l == 2) (void)va_arg(ap, long double); else (void)va_arg(ap, double); break;
        case 'n': (void)va_arg(ap, void *); break;
        default: va_end(ap); return;
        }
        if (*f) f++;
    }
    va_end(ap);
}
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    TICK;
    sim_fmt_check(f, ap);
    if (n && sim_running) check((uintptr_t)d, 1, 1, "snprintf");
    va_list a2;
    va_copy(a2, ap);
    int r = vsnprintf(0, 0, f, a2);
    va_end(a2);
    fmt_out_check(d, n, r);
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, 1u << 30, f, ap); va_end(ap); return r; }
int sim_vsprintf(char *d, const char *f, va_list ap) { return sim_vsnprintf(d, 1u << 30, f, ap); }
int sim_vasprintf(char **o, const char *f, va_list ap) {
    va_list a2;
    va_copy(a2, ap);
    int r = vsnprintf(0, 0, f, a2);
    va_end(a2);
    char *p = sim_malloc((size_t)r + 1);
    if (!p) return -1;
    vsnprintf(p, (size_t)r + 1, f, ap);
    *o = p;
    return r;
}
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim_sscanf(const char *s, const char *f, ...) { TICK; cstrlen(s, "sscanf"); va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
