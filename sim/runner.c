/* Seeded search: runs many simulations, audits determinism, minimises and
 * replays failures, writes evidence. */
#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static sim_harness_t *hs;
void sim_register(sim_harness_t *h) { h->next = hs; hs = h; }

static const char *kname[DK_MAX] = {"cfg", "work", "preempt-sync", "preempt-mem", "pick-next", "pick-waiter", "spurious-wakeup", "thread-stall",
    "time-leap", "clock-jump", "alloc-failure", "thread-create-failure", "short-send", "short-recv", "eintr", "conn-reset", "net-delay",
    "conn-refused", "conn-timeout", "accept-failure", "socket-failure", "dns-failure", "partition", "peer-misbehaviour", "disk-write-error",
    "disk-full", "disk-read-error", "disk-meta-error", "process-crash", "power-loss", "unsynced-data-lost"};

#define HT (1u << 22)
#define MAXF 4096
typedef struct { u64 idx; int h; char cls[64]; char msg[400]; u64 hash; } found_t;
typedef struct {
    volatile u64 next;
    volatile int stop;
    volatile u64 runs, viol, inconc, timeouts, errors, nontriv, faultfree, audits, audit_fail, replay_audits;
    volatile u64 simtime, steps, accesses, switches, checks, threads, nevents;
    volatile u64 faults[DK_MAX], faultruns[DK_MAX];
    volatile u64 hruns[32], hnontriv[32];
    volatile u64 dist_all, dist_nt, dist_states;
    volatile int lock;
    int nprobe;
    struct { char name[40]; u64 n, runs; } probe[NPROBE * 2];
    volatile u32 nfound;
    found_t found[MAXF];
    char first_inconc[400], first_error[400];
    u64 bad_audit_idx; char bad_audit_what[100];
    int nsamples;
    struct { u64 idx, seed, hash, shash, steps, simtime; int h, nf, threads; } sample[12];
    u64 tab_all[HT], tab_nt[HT], tab_st[HT];
} shared_t;
static shared_t *S;

static u64 mix64(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

static int tab_add(u64 *t, u64 h) {
    if (!h) h = 1;
    u32 p = (u32)(h ^ (h >> 32)) & (HT - 1);
    for (int i = 0; i < 64; i++) {
        u64 o = __atomic_load_n(&t[p], __ATOMIC_RELAXED);
        if (o == h) return 0;
        if (!o) { u64 z = 0; if (__atomic_compare_exchange_n(&t[p], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1; if (z == h) return 0; }
        p = (p + 1) & (HT - 1);
    }
    return 0;
}
#define ADD(x, v) __atomic_fetch_add(&(x), (v), __ATOMIC_RELAXED)
static void lock_(void) { while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) usleep(50); }
static void unlock_(void) { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

static const char *prop, *tier = "quick", *evid, *repdir, *knownf, *only;
static u64 seed0 = 1;
static double budget = 30;
static int workers = 8;
static u64 maxruns = NEVER;
static int cpu_limit = 20;
static sim_harness_t *hl[32]; static int nh, wsum;

static u64 run_seed(u64 idx) { return mix64(seed0, idx); }
static int run_harness(u64 idx) {
    int w = (int)(mix64(seed0 ^ 0xabcdef, idx) % (u64)wsum);
    for (int i = 0; i < nh; i++) { w -= hl[i]->weight; if (w < 0) return i; }
    return 0;
}
static void child_setup(void) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu_limit;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}
/* runs one simulation in a child; the result is in r */
static pid_t start_run(result_t *r, sim_harness_t *h, u64 seed, const dec_t *rep, u32 n, int verbose) {
    r->status = RS_NONE;
    r->cls[0] = 0; r->msg[0] = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { R = r; child_setup(); core_run(h->run, seed, rep, n, verbose); }
    return p;
}
static void finish_run(pid_t p, result_t *r) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == RS_NONE) { r->status = RS_ERROR; snprintf(r->msg, sizeof r->msg, "simulation process ended with wait status 0x%x", st); }
    if (r->status == RS_TIMEOUT) { snprintf(r->cls, sizeof r->cls, "cpu-hang"); snprintf(r->msg, sizeof r->msg, "no end after %d s of processor time", cpu_limit); }
}
static void one(result_t *r, sim_harness_t *h, u64 seed, const dec_t *rep, u32 n, int verbose) { finish_run(start_run(r, h, seed, rep, n, verbose), r); }
static result_t *new_result(void) {
    result_t *r = mmap(0, sizeof *r, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) { perror("mmap"); exit(2); }
    return r;
}
static int is_viol(result_t *r) { return r->status == RS_VIOL || r->status == RS_TIMEOUT; }

/* ---- known findings ---- */
typedef struct { char cls[64], harness[64], match[300], desc[400]; int hit; } known_t;
static known_t kn[64]; static int nkn;
static void load_known(void) {
    FILE *f = knownf ? fopen(knownf, "r") : 0;
    char l[1200];
    if (!f) return;
    while (fgets(l, sizeof l, f)) {
        /* finding: property=P01 harness=h class=c match="text" description */
        if (strncmp(l, "finding:", 8)) continue;
        char p[16] = "";
        known_t k;
        memset(&k, 0, sizeof k);
        char *m = strstr(l, "match=\"");
        if (sscanf(l, "finding: property=%15s harness=%63s class=%63s", p, k.harness, k.cls) != 3 || !m) { fprintf(stderr, "bad line in %s: %s", knownf, l); exit(2); }
        if (strcmp(p, prop)) continue;
        m += 7;
        char *e = strchr(m, '"');
        if (!e) { fprintf(stderr, "bad line in %s: %s", knownf, l); exit(2); }
        *e = 0;
        snprintf(k.match, sizeof k.match, "%s", m);
        e++;
        while (*e == ' ') e++;
        e[strcspn(e, "\n")] = 0;
        snprintf(k.desc, sizeof k.desc, "%s", e);
        if (nkn < 64) kn[nkn++] = k;
    }
    fclose(f);
}
static int known(const char *h, const char *cls, const char *msg) {
    for (int i = 0; i < nkn; i++) if (!strcmp(kn[i].cls, cls) && (!strcmp(kn[i].harness, "*") || !strcmp(kn[i].harness, h)) && strstr(msg, kn[i].match)) return i + 1;
    return 0;
}

static void absorb(result_t *r, u64 idx, int h) {
    ADD(S->runs, 1);
    ADD(S->hruns[h], 1);
    ADD(S->simtime, r->simtime > 1000 * SEC ? r->simtime - 1000 * SEC : 0);
    ADD(S->steps, r->steps); ADD(S->accesses, r->accesses); ADD(S->switches, r->switches); ADD(S->checks, r->checks);
    ADD(S->threads, (u64)r->threads); ADD(S->nevents, r->nevents);
    int nf = 0;
    for (int k = DK_FIRST_FAULT; k < DK_MAX; k++) if (r->faults[k]) { ADD(S->faults[k], r->faults[k]); ADD(S->faultruns[k], 1); nf += (int)r->faults[k]; }
    if (!nf) ADD(S->faultfree, 1);
    if (tab_add(S->tab_all, r->shash)) ADD(S->dist_all, 1);
    if (r->nontrivial && r->status == RS_OK) {
        ADD(S->nontriv, 1);
        ADD(S->hnontriv[h], 1);
        if (tab_add(S->tab_nt, r->shash)) ADD(S->dist_nt, 1);
    }
    for (int i = 0; i < r->nstate; i++) if (tab_add(S->tab_st, r->state[i])) ADD(S->dist_states, 1);
    if (r->nprobe || S->nsamples < 12 || r->status == RS_INCONC || r->status == RS_ERROR) {
        lock_();
        for (int i = 0; i < r->nprobe; i++) {
            int j;
            for (j = 0; j < S->nprobe; j++) if (!strcmp(S->probe[j].name, r->probe[i].name)) break;
            if (j == S->nprobe) { if (j == NPROBE * 2) continue; S->nprobe++; snprintf(S->probe[j].name, 40, "%s", r->probe[i].name); }
            S->probe[j].n += r->probe[i].n; S->probe[j].runs++;
        }
        if (S->nsamples < 12 && r->nontrivial && r->status == RS_OK && (idx % 37 == 0 || S->nsamples < 4)) {
            int k = S->nsamples++;
            S->sample[k].idx = idx; S->sample[k].seed = run_seed(idx); S->sample[k].hash = r->hash; S->sample[k].shash = r->shash; S->sample[k].h = h;
            S->sample[k].steps = r->steps; S->sample[k].simtime = r->simtime - 1000 * SEC; S->sample[k].nf = nf; S->sample[k].threads = r->threads;
        }
        if (r->status == RS_INCONC && !S->first_inconc[0]) snprintf(S->first_inconc, sizeof S->first_inconc, "run %llu seed %llu %s: %.300s", (unsigned long long)idx, (unsigned long long)run_seed(idx), hl[h]->name, r->msg);
        if (r->status == RS_ERROR && !S->first_error[0]) snprintf(S->first_error, sizeof S->first_error, "run %llu seed %llu %s: %.300s", (unsigned long long)idx, (unsigned long long)run_seed(idx), hl[h]->name, r->msg);
        unlock_();
    }
    if (r->status == RS_INCONC) ADD(S->inconc, 1);
    if (r->status == RS_ERROR) ADD(S->errors, 1);
    if (r->status == RS_TIMEOUT) ADD(S->timeouts, 1);
    if (is_viol(r)) {
        ADD(S->viol, 1);
        u32 n = ADD(S->nfound, 1u);
        if (n < MAXF) {
            found_t *f = &S->found[n];
            f->idx = idx; f->h = h; f->hash = r->hash;
            snprintf(f->cls, sizeof f->cls, "%s", r->cls);
            snprintf(f->msg, sizeof f->msg, "%.399s", r->msg);
        }
        if (!known(hl[h]->name, r->cls, r->msg)) S->stop = 1;
    }
}
static int survey;
static void worker(double end) {
    result_t *r = new_result(), *r2 = new_result();
    for (;;) {
        if ((S->stop && !survey) || now_s() >= end) break;
        u64 idx = ADD(S->next, 1);
        if (idx >= maxruns) break;
        int h = run_harness(idx);
        one(r, hl[h], run_seed(idx), 0, 0, 0);
        absorb(r, idx, h);
        if ((idx < 64 || idx % 61 == 0) && (r->status == RS_OK || r->status == RS_VIOL)) {
            u64 hash = r->hash, ne = r->nevents;
            one(r2, hl[h], run_seed(idx), 0, 0, 0);
            ADD(S->audits, 1);
            if (r2->hash != hash || r2->nevents != ne || r2->status != r->status) {
                if (!ADD(S->audit_fail, 1)) { S->bad_audit_idx = idx; snprintf(S->bad_audit_what, 100, "same seed, different run"); }
            } else {
                u32 n = r->ndec;
                dec_t *d = malloc(sizeof *d * (n + 1));
                memcpy(d, r->dec, sizeof *d * n);
                one(r2, hl[h], run_seed(idx), d, n, 0);
                free(d);
                ADD(S->replay_audits, 1);
                if (r2->hash != hash || r2->nevents != ne || r2->status != r->status)
                    if (!ADD(S->audit_fail, 1)) { S->bad_audit_idx = idx; snprintf(S->bad_audit_what, 100, "replay of the decision log differs"); }
            }
        }
    }
    _exit(0);
}

/* ---- minimisation ---- */
static dec_t *dl; static u32 ndl;
static result_t *mr[64];
static int same(result_t *r, const char *cls) { return is_viol(r) && !strcmp(r->cls, cls); }
static void minimise(sim_harness_t *h, u64 seed, const char *cls, double end, u64 *tries) {
    for (int i = 0; i < workers; i++) if (!mr[i]) mr[i] = new_result();
    dec_t *cand[64]; u32 nc[64]; u32 st[64];
    for (int i = 0; i < workers; i++) cand[i] = malloc(sizeof *dl * (ndl + 1));
    u32 chunk = (ndl + 1) / 2;
    if (!chunk) chunk = 1;
    for (;;) {
        int removed = 0;
        u32 pos = 0;
        while (pos < ndl && now_s() < end) {
            int k = 0;
            pid_t pid[64];
            u32 p = pos;
            for (; k < workers && p < ndl; k++, p += chunk) {
                u32 e = p + chunk < ndl ? p + chunk : ndl;
                memcpy(cand[k], dl, sizeof *dl * p);
                memcpy(cand[k] + p, dl + e, sizeof *dl * (ndl - e));
                nc[k] = ndl - (e - p);
                st[k] = p;
                pid[k] = start_run(mr[k], h, seed, cand[k], nc[k], 0);
                ++*tries;
            }
            for (int i = 0; i < k; i++) finish_run(pid[i], mr[i]);
            int best = -1, cnt = 0;
            for (int i = 0; i < k; i++) if (same(mr[i], cls)) { cnt++; if (best < 0 || mr[i]->ndec < mr[best]->ndec) best = i; }
            if (best < 0) { pos = p; continue; }
            if (cnt > 1) { /* all successful removals together */
                u32 n = 0;
                dec_t *c = cand[best == 0 ? 1 % workers : 0];
                dec_t *tmp = malloc(sizeof *dl * (ndl + 1));
                for (u32 q = 0; q < ndl; q++) {
                    int drop = 0;
                    for (int i = 0; i < k; i++) if (same(mr[i], cls) && q >= st[i] && q < st[i] + chunk) drop = 1;
                    if (!drop) tmp[n++] = dl[q];
                }
                (void)c;
                static result_t *extra;
                if (!extra) extra = new_result();
                one(extra, h, seed, tmp, n, 0);
                ++*tries;
                free(tmp);
                if (same(extra, cls) && extra->ndec <= ndl) {
                    ndl = extra->ndec;
                    memcpy(dl, extra->dec, sizeof *dl * ndl);
                    removed = 1;
                    continue;
                }
            }
            if (mr[best]->ndec < ndl) {
                u32 at = st[best];
                ndl = mr[best]->ndec;
                memcpy(dl, mr[best]->dec, sizeof *dl * ndl);
                removed = 1;
                pos = at;
            } else pos = p;
        }
        if (now_s() >= end) break;
        if (chunk == 1) { if (!removed) break; }
        else chunk = (chunk + 1) / 2;
    }
    for (int i = 0; i < workers; i++) free(cand[i]);
}

static char exe[512];
/* copy the event tail resolving @addresses */
static void put_tail(FILE *f, const char *t, u32 n) {
    const char *p = t, *end = t + n;
    while (p < end) {
        const char *e = memchr(p, '\n', (size_t)(end - p));
        if (!e) e = end;
        fprintf(f, "# %.*s", (int)(e - p), p);
        const char *at = memmem(p, (size_t)(e - p), "@0x", 3);
        if (at) {
            char cmd[700], o[300];
            snprintf(cmd, sizeof cmd, "addr2line -f -s -e '%s' 0x%llx 2>/dev/null", exe, strtoull(at + 1, 0, 16) - 1);
            FILE *q = popen(cmd, "r");
            if (q) {
                while (fgets(o, sizeof o, q)) { o[strcspn(o, "\n")] = 0; fprintf(f, "  %s", o); }
                pclose(q);
            }
        }
        fputc('\n', f);
        p = e + 1;
    }
}
static int write_replay(const char *path, sim_harness_t *h, u64 seed, result_t *r, u32 before) {
    FILE *f = fopen(path, "w");
    if (!f) { perror(path); return -1; }
    fprintf(f, "property %s\nharness %s\nseed %llu\nclass %s\nhash %016llx\nmessage %s\n", h->property, h->name, (unsigned long long)seed, r->cls, (unsigned long long)r->hash, r->msg);
    fprintf(f, "# %u decisions and faults differ from the default (%u before minimisation)\n# decision <kind> <thread> <nth of that kind in that thread> <value>\n", ndl, before);
    for (u32 i = 0; i < ndl; i++) fprintf(f, "decision %s %u %u %u\n", kname[dl[i].kind], dl[i].tid, dl[i].occ, dl[i].val);
    fprintf(f, "# event log of this run:\n");
    put_tail(f, r->tail, r->tail_len);
    fclose(f);
    return 0;
}
static sim_harness_t *by_name(const char *p, const char *n) { for (sim_harness_t *h = hs; h; h = h->next) if (!strcmp(h->name, n) && (!p || !strcmp(h->property, p))) return h; return 0; }
static int do_replay(const char *path, int verbose) {
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); return 2; }
    char l[1400], p[32] = "", hn[64] = "", cls[64] = "";
    unsigned long long sd = 0, hash = 0;
    dec_t *d = malloc(sizeof *d * MAXDEC);
    u32 n = 0;
    while (fgets(l, sizeof l, f)) {
        char k[64]; unsigned t, o, v;
        if (sscanf(l, "property %31s", p) == 1) continue;
        if (sscanf(l, "harness %63s", hn) == 1) continue;
        if (sscanf(l, "seed %llu", &sd) == 1) continue;
        if (sscanf(l, "class %63s", cls) == 1) continue;
        if (sscanf(l, "hash %llx", &hash) == 1) continue;
        if (sscanf(l, "decision %63s %u %u %u", k, &t, &o, &v) == 4) {
            int kk;
            for (kk = 0; kk < DK_MAX; kk++) if (!strcmp(kname[kk], k)) break;
            if (kk == DK_MAX) return 2;
            d[n].kind = (u8)kk; d[n].pad = 0; d[n].tid = (u16)t; d[n].occ = o; d[n].val = v; n++;
        }
    }
    fclose(f);
    sim_harness_t *h = by_name(p, hn);
    if (!h) { fprintf(stderr, "no harness %s for %s\n", hn, p); return 2; }
    result_t *r = new_result();
    one(r, h, sd, d, n, verbose);
    if (verbose) put_tail(stderr, r->tail, r->tail_len);
    int ok = is_viol(r) && !strcmp(r->cls, cls) && (r->hash == hash || r->status == RS_TIMEOUT);
    printf("replay %s: %s %s hash %016llx %s\n", path, is_viol(r) ? r->cls : "no violation", r->msg, (unsigned long long)r->hash, ok ? "reproduced exactly" : "NOT reproduced");
    return ok ? 1 : is_viol(r) ? 3 : 0;
}
static void js(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((u8)*s >= 32) fputc(*s, f); }
    fputc('"', f);
}
static void evidence(double wall, int viols, const char *viol_desc) {
    if (!evid) return;
    char tmp[600];
    snprintf(tmp, sizeof tmp, "%s.tmp", evid);
    FILE *f = fopen(tmp, "w");
    if (!f) { perror(tmp); exit(2); }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", prop, tier, (unsigned long long)seed0, wall, viols);
    fprintf(f, " \"assumptions\": [");
    for (int i = 0; i < nh; i++) { char b[1500]; snprintf(b, sizeof b, "%s: real code: %s; replaced: %s", hl[i]->name, hl[i]->real, hl[i]->stub); if (i) fputs(", ", f); js(f, b); }
    fprintf(f, ", \"sequentially consistent memory; preemption at every instrumented memory access, atomic, lock and system call\"],\n");
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": ", (unsigned long long)S->runs, (unsigned long long)S->dist_nt);
    char rule[3000];
    int n = snprintf(rule, sizeof rule, "one evaluation is one complete simulated run; counted in distinct_nontrivial are the different interleaving hashes (sequence of thread switches and synchronisation points) among runs that completed and were non-trivial, where non-trivial means: ");
    for (int i = 0; i < nh && n < (int)sizeof rule - 200; i++) n += snprintf(rule + n, sizeof rule - (size_t)n, "%s%s: %s", i ? "; " : "", hl[i]->name, hl[i]->rule);
    js(f, rule);
    fprintf(f, ",\n  \"samples\": [");
    for (int i = 0; i < S->nsamples; i++)
        fprintf(f, "%s\n   {\"run\": %llu, \"seed\": %llu, \"harness\": \"%s\", \"threads\": %d, \"sync_points\": %llu, \"simulated_s\": %.6f, \"faults\": %d, \"interleaving\": \"%016llx\", \"events\": \"%016llx\"}", i ? "," : "",
                (unsigned long long)S->sample[i].idx, (unsigned long long)S->sample[i].seed, hl[S->sample[i].h]->name, S->sample[i].threads, (unsigned long long)S->sample[i].steps, (double)S->sample[i].simtime / 1e9, S->sample[i].nf,
                (unsigned long long)S->sample[i].shash, (unsigned long long)S->sample[i].hash);
    fprintf(f, "],\n  \"runs_per_hour\": %.0f,\n  \"simulated_hours\": %.4f,\n  \"sync_points\": %llu,\n  \"memory_accesses\": %llu,\n  \"thread_switches\": %llu,\n  \"oracle_checks\": %llu,\n  \"threads_started\": %llu,\n  \"nontrivial_runs\": %llu,\n  \"fault_free_runs\": %llu,\n  \"distinct_interleavings_all_runs\": %llu,\n  \"distinct_abstract_states\": %llu,\n  \"inconclusive_runs\": %llu,\n  \"determinism_audits\": %llu,\n  \"replay_audits\": %llu,\n  \"audit_mismatches\": %llu,\n",
            wall > 0 ? (double)S->runs / wall * 3600 : 0, (double)S->simtime / 3.6e12, (unsigned long long)S->steps, (unsigned long long)S->accesses, (unsigned long long)S->switches, (unsigned long long)S->checks, (unsigned long long)S->threads,
            (unsigned long long)S->nontriv, (unsigned long long)S->faultfree, (unsigned long long)S->dist_all, (unsigned long long)S->dist_states, (unsigned long long)S->inconc, (unsigned long long)S->audits, (unsigned long long)S->replay_audits, (unsigned long long)S->audit_fail);
    fprintf(f, "  \"faults_injected\": {");
    int c = 0;
    for (int k = DK_FIRST_FAULT; k < DK_MAX; k++) if (S->faults[k]) fprintf(f, "%s\"%s\": {\"count\": %llu, \"runs\": %llu}", c++ ? ", " : "", kname[k], (unsigned long long)S->faults[k], (unsigned long long)S->faultruns[k]);
    fprintf(f, "},\n  \"harness_runs\": {");
    for (int i = 0; i < nh; i++) fprintf(f, "%s\"%s\": {\"runs\": %llu, \"nontrivial\": %llu}", i ? ", " : "", hl[i]->name, (unsigned long long)S->hruns[i], (unsigned long long)S->hnontriv[i]);
    fprintf(f, "},\n  \"probes\": {");
    for (int i = 0; i < S->nprobe; i++) { if (i) fputs(", ", f); js(f, S->probe[i].name); fprintf(f, ": {\"hits\": %llu, \"runs\": %llu}", (unsigned long long)S->probe[i].n, (unsigned long long)S->probe[i].runs); }
    fprintf(f, "}\n }%s", viol_desc ? ",\n \"violation\": " : "");
    if (viol_desc) js(f, viol_desc);
    fprintf(f, "\n}\n");
    fclose(f);
    rename(tmp, evid);
}

int main(int argc, char **argv) {
    const char *replay = 0, *oneh = 0;
    int verbose = 0;
    u64 oneseed = 0, hash_from = 0, hash_n = 0;
    double t0 = now_s();
    double minsec = 60;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_DONE")) {
        personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        setenv("SIM_ASLR_DONE", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return 2;
    for (int i = 1; i < argc; i++) {
#define A(s) (!strcmp(argv[i], s) && i + 1 < argc)
        if (A("--property")) prop = argv[++i];
        else if (A("--tier")) tier = argv[++i];
        else if (A("--seed")) seed0 = strtoull(argv[++i], 0, 10);
        else if (A("--time")) budget = atof(argv[++i]);
        else if (A("--workers")) workers = atoi(argv[++i]);
        else if (A("--runs")) maxruns = strtoull(argv[++i], 0, 10);
        else if (A("--evidence")) evid = argv[++i];
        else if (A("--replay-dir")) repdir = argv[++i];
        else if (A("--known")) knownf = argv[++i];
        else if (A("--harness")) only = argv[++i];
        else if (A("--min-time")) minsec = atof(argv[++i]);
        else if (A("--replay")) replay = argv[++i];
        else if (A("--hashes")) { hash_n = strtoull(argv[++i], 0, 10); }
        else if (A("--from")) hash_from = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--survey")) survey = 1;
        else if (!strcmp(argv[i], "--one") && i + 2 < argc) { oneh = argv[++i]; oneseed = strtoull(argv[++i], 0, 10); }
        else if (!strcmp(argv[i], "-v")) verbose = 1;
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    if (workers < 1) workers = 1;
    if (workers > 64) workers = 64;
    if (replay) return do_replay(replay, verbose);
    if (oneh) {
        sim_harness_t *h = by_name(prop, oneh);
        if (!h) return 2;
        result_t *r = new_result();
        one(r, h, oneseed, 0, 0, verbose);
        put_tail(stdout, r->tail, r->tail_len);
        printf("status %d class %s msg %s hash %016llx dec %u steps %llu acc %llu sim %.3fs\n", r->status, r->cls, r->msg, (unsigned long long)r->hash, r->ndec, (unsigned long long)r->steps, (unsigned long long)r->accesses, (double)(r->simtime - 1000 * SEC) / 1e9);
        return is_viol(r);
    }
    if (!prop) { for (sim_harness_t *h = hs; h; h = h->next) printf("%s %s\n", h->property, h->name); return 0; }
    for (sim_harness_t *h = hs; h && nh < 32; h = h->next) if (!strcmp(h->property, prop) && (!only || !strcmp(h->name, only))) { hl[nh++] = h; wsum += h->weight; }
    if (!nh) { fprintf(stderr, "no harness for %s\n", prop); return 2; }
    /* registration order depends on link order: sort */
    for (int i = 0; i < nh; i++) for (int j = i + 1; j < nh; j++) if (strcmp(hl[i]->name, hl[j]->name) > 0) { sim_harness_t *x = hl[i]; hl[i] = hl[j]; hl[j] = x; }
    load_known();
    if (hash_n) { /* print run hashes, for determinism comparisons across processes */
        result_t *r = new_result();
        for (u64 i = hash_from; i < hash_from + hash_n; i++) { int h = run_harness(i); one(r, hl[h], run_seed(i), 0, 0, 0); printf("%llu %s %d %s %016llx %llu\n", (unsigned long long)i, hl[h]->name, r->status, r->cls, (unsigned long long)r->hash, (unsigned long long)r->nevents); }
        return 0;
    }
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    double end = t0 + budget;
    pid_t wp[64];
    fflush(stdout);
    for (int i = 0; i < workers; i++) { wp[i] = fork(); if (wp[i] == 0) worker(end); }
    int werr = 0;
    for (int i = 0; i < workers; i++) { int st; waitpid(wp[i], &st, 0); if (st) werr = 1; }
    u32 nf = S->nfound < MAXF ? S->nfound : MAXF;
    if (survey) {
        /* development aid: histogram of failure classes */
        for (u32 i = 0; i < nf; i++) {
            int dup = 0, cnt = 0;
            for (u32 j = 0; j < nf; j++) if (!strcmp(S->found[i].cls, S->found[j].cls) && S->found[i].h == S->found[j].h) { cnt++; if (j < i) dup = 1; }
            if (!dup) printf("%5d %-12s %s: %.220s (run %llu seed %llu)\n", cnt, hl[S->found[i].h]->name, S->found[i].cls, S->found[i].msg, (unsigned long long)S->found[i].idx, (unsigned long long)run_seed(S->found[i].idx));
        }
        printf("runs %llu viol %llu nontrivial %llu distinct %llu states %llu inconclusive %llu timeouts %llu errors %llu audits %llu bad %llu (run %llu %s)\n", (unsigned long long)S->runs, (unsigned long long)S->viol, (unsigned long long)S->nontriv, (unsigned long long)S->dist_nt, (unsigned long long)S->dist_states, (unsigned long long)S->inconc, (unsigned long long)S->timeouts, (unsigned long long)S->errors, (unsigned long long)S->audits, (unsigned long long)S->audit_fail, (unsigned long long)S->bad_audit_idx, S->bad_audit_what);
        if (S->first_inconc[0]) printf("inconclusive: %s\n", S->first_inconc);
        if (S->first_error[0]) printf("error: %s\n", S->first_error);
        for (int i = 0; i < S->nprobe; i++) printf("probe %s hits %llu runs %llu\n", S->probe[i].name, (unsigned long long)S->probe[i].n, (unsigned long long)S->probe[i].runs);
        for (int k = DK_FIRST_FAULT; k < DK_MAX; k++) if (S->faults[k]) printf("fault %s %llu in %llu runs\n", kname[k], (unsigned long long)S->faults[k], (unsigned long long)S->faultruns[k]);
        return 0;
    }
    if (werr) { fprintf(stderr, "a worker ended abnormally\n"); return 2; }
    /* known findings, then the violation with the lowest run number */
    found_t *v = 0;
    for (u32 i = 0; i < nf; i++) {
        found_t *x = &S->found[i];
        int k = known(hl[x->h]->name, x->cls, x->msg);
        if (k) { kn[k - 1].hit++; continue; }
        if (!v || x->idx < v->idx) v = x;
    }
    for (int i = 0; i < nkn; i++) if (kn[i].hit) printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, kn[i].desc, kn[i].hit);
    double searched = now_s() - t0;
    int rc = 0;
    char desc[1600] = "";
    if (v) {
        sim_harness_t *h = hl[v->h];
        u64 sd = run_seed(v->idx);
        result_t *r = new_result(), *r2 = new_result();
        one(r, h, sd, 0, 0, 0);
        if (!is_viol(r) || strcmp(r->cls, v->cls) || (r->hash != v->hash && r->status != RS_TIMEOUT)) { fprintf(stderr, "run %llu is not reproducible (%s, then %s %s)\n", (unsigned long long)v->idx, v->cls, r->cls, r->msg); return 2; }
        printf("violation in run %llu (seed %llu, %s): %s: %s\n", (unsigned long long)v->idx, (unsigned long long)sd, h->name, r->cls, r->msg);
        fflush(stdout);
        char cls[64];
        snprintf(cls, sizeof cls, "%s", r->cls);
        ndl = r->ndec;
        u32 before = ndl;
        dl = malloc(sizeof *dl * (MAXDEC + 1));
        memcpy(dl, r->dec, sizeof *dl * ndl);
        one(r2, h, sd, dl, ndl, 0);
        if (!same(r2, cls)) { fprintf(stderr, "replay of the full decision log does not reproduce %s (%s)\n", cls, r2->cls); return 2; }
        u64 tries = 0;
        cpu_limit = r->status == RS_TIMEOUT ? 20 : 20;
        if (r->status != RS_TIMEOUT) minimise(h, sd, cls, now_s() + minsec, &tries);
        one(r, h, sd, dl, ndl, 0);
        if (!same(r, cls)) { fprintf(stderr, "minimised trace does not reproduce\n"); return 2; }
        char path[700];
        snprintf(path, sizeof path, "%s/%s-%llu.replay", repdir ? repdir : ".", prop, (unsigned long long)seed0);
        if (write_replay(path, h, sd, r, before)) return 2;
        for (int i = 0; i < 2; i++) { /* fresh processes */
            char cmd[1500];
            snprintf(cmd, sizeof cmd, "env -u SIM_ASLR_DONE '%s' --replay '%s' >/dev/null", exe, path);
            int st = system(cmd);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "replay in a fresh process does not reproduce exactly\n"); return 2; }
        }
        snprintf(desc, sizeof desc, "%s: %s: %.1000s (run %llu, seed %llu, %u decisions after minimisation from %u, %llu trial runs)", h->name, r->cls, r->msg, (unsigned long long)v->idx, (unsigned long long)sd, ndl, before, (unsigned long long)tries);
        printf("%s\nVIOLATION property=%s replay=%s\n", desc, prop, path);
        rc = 1;
    } else if (S->audit_fail) { fprintf(stderr, "determinism audit failed: run %llu: %s\n", (unsigned long long)S->bad_audit_idx, S->bad_audit_what); rc = 2; }
    else if (S->errors) { fprintf(stderr, "simulation error: %s\n", S->first_error); rc = 2; }
    else if (S->runs == 0 || S->inconc * 20 > S->runs) { fprintf(stderr, "too many inconclusive runs: %llu of %llu: %s\n", (unsigned long long)S->inconc, (unsigned long long)S->runs, S->first_inconc); rc = 2; }
    else if (S->dist_nt == 0) { fprintf(stderr, "no non-trivial run\n"); rc = 2; }
    evidence(searched, rc == 1, rc == 1 ? desc : 0);
    printf("%s: %llu runs (%llu distinct non-trivial interleavings), %.2f simulated hours, %.1f s\n", prop, (unsigned long long)S->runs, (unsigned long long)S->dist_nt, (double)S->simtime / 3.6e12, now_s() - t0);
    return rc;
}
