/* P11: the advanced rate limiter against the bound of each algorithm. */
#include "sim.h"
#include "mcp_advanced_rate_limiter.h"
#include "mcp_log.h"
#include <stdio.h>
#include <string.h>

#define NK 24
#define NE 600
typedef struct { u64 a, b; int ok, oom; } ev_t;
static ev_t ev[NK][NE];
static int nev[NK];
typedef struct { int type, alg, prio; u32 win, max, cap; double rate; char pat[24]; int haspat, on; } rule_t;
static rule_t R[8];
static int nr, nk, refusals, fresh, changing, multi;
static struct { int type; char s[200]; } K[NK];
static mcp_advanced_rate_limiter_t *rl;

static int pat_match(const rule_t *r, const char *k) {
    if (!r->haspat) return 1;
    const char *p = r->pat;
    size_t n = strlen(p), kn = strlen(k);
    if (!strcmp(p, k)) return 1;
    if (n > 2 && p[0] == '*' && p[n - 1] == '*') { char m[24]; memcpy(m, p + 1, n - 2); m[n - 2] = 0; return strstr(k, m) != 0; }
    if (n > 1 && p[n - 1] == '*') return !strncmp(k, p, n - 1);
    if (n > 1 && p[0] == '*') return kn >= n - 1 && !strcmp(k + kn - (n - 1), p + 1);
    return 0;
}
static int rule_of(int key) {
    int best = -1;
    for (int i = 0; i < nr; i++)
        if (R[i].on && R[i].type == K[key].type && pat_match(&R[i], K[key].s) && (best < 0 || R[i].prio > R[best].prio)) best = i;
    return best;
}
static void add(int i) {
    rule_t *r = &R[i];
    mcp_rate_limit_rule_t m;
    if (r->alg == 2) m = mcp_advanced_rate_limiter_create_token_bucket_rule((mcp_rate_limit_key_type_t)r->type, r->rate, r->cap);
    else if (r->alg == 3) m = mcp_advanced_rate_limiter_create_leaky_bucket_rule((mcp_rate_limit_key_type_t)r->type, r->rate, r->cap);
    else m = mcp_advanced_rate_limiter_create_default_rule((mcp_rate_limit_key_type_t)r->type, (mcp_rate_limit_algorithm_t)r->alg, r->win, r->max);
    m.priority = r->prio;
    m.key_pattern = r->haspat ? r->pat : 0;
    u64 f = sim_alloc_failed();
    int ok = mcp_advanced_rate_limiter_add_rule(rl, &m);
    CHECK(ok || sim_alloc_failed() != f, "add-failed", "adding a rule failed");
    r->on = ok;
}
static void gen_rule(int i) {
    static const char *pats[] = {"10.*", "*.7", "*0.1*", "10.0.1.7", "u*", "*x", "10.0.*", "*1*"};
    static const double rates[] = {0.5, 1, 2, 0.1, 10, 3.3};
    static const u32 wins[] = {1, 2, 5, 60}, maxs[] = {1, 2, 3, 5, 10};
    rule_t *r = &R[i];
    memset(r, 0, sizeof *r);
    r->type = multi ? (int)C(4) : 0; r->alg = (int)C(4); r->prio = (int)C(10) * 10 + i;   /* distinct */
    r->win = wins[C(4)]; r->max = maxs[C(5)]; r->cap = maxs[C(5)]; r->rate = rates[C(6)];
    r->haspat = (int)C(3) != 0;
    if (r->haspat) strcpy(r->pat, pats[C(8)]);
    /* rules are removed by pattern: keep (type, pattern) unique */
    for (int j = 0; j < nr; j++)
        if (j != i && R[j].type == r->type && R[j].haspat == r->haspat && (!r->haspat || !strcmp(R[j].pat, r->pat))) { snprintf(r->pat, sizeof r->pat, "zz%d", i); r->haspat = 1; }
}
static void ask(int k) {
    const char *arg[4] = {0};
    int keys[4], n = 0;
    static const int order[4] = {2, 1, 0, 3};      /* API key, user, address, custom */
    arg[K[k].type] = K[k].s; keys[n++] = k;
    if (multi && W(3) == 2)
        for (int q = 0; q < nk; q++) if (!arg[K[q].type] && W(3) == 1) { arg[K[q].type] = K[q].s; keys[n++] = q; }
    /* which key decides */
    int dec = -1;
    for (int o = 0; o < 4 && dec < 0; o++)
        for (int i = 0; i < n; i++) if (K[keys[i]].type == order[o] && rule_of(keys[i]) >= 0) dec = keys[i];
    u64 f = sim_alloc_failed(), a = sim_now();
    int r = mcp_advanced_rate_limiter_check(rl, arg[0], arg[1], arg[2], arg[3]);
    u64 b = sim_now();
    if (!r) refusals++;
    if (changing || dec < 0 || nev[dec] >= NE) return;
    ev[dec][nev[dec]++] = (ev_t){a, b, r, sim_alloc_failed() != f};
}
static void asker(void *arg) {
    int n = (int)(intptr_t)arg, style = (int)W(3);
    for (int i = 0; i < n; i++) {
        ask(style == 1 ? 0 : (int)W((u32)nk));
        u32 k = W(8);
        if (k == 1) sim_sleep_ns((u64)WR(1, 500) * MS);
        else if (k == 2) sim_sleep_ns(SEC);
        else if (k == 3) sim_sleep_ns(2 * SEC - (u64)WR(0, 2) * MS);
        else if (k == 4) sim_sleep_ns((u64)WR(1, 60) * SEC);
    }
}
static void changer(void *arg) {
    int n = (int)(intptr_t)arg;
    for (int i = 0; i < n; i++) {
        int r = (int)W((u32)nr);
        u32 k = W(4);
        if (k == 0) mcp_advanced_rate_limiter_clear_data(rl);
        else if (k == 1) { mcp_advanced_rate_limiter_stats_t st; mcp_advanced_rate_limiter_get_stats(rl, &st); }
        else if (R[r].on) { mcp_advanced_rate_limiter_remove_rule(rl, (mcp_rate_limit_key_type_t)R[r].type, R[r].haspat ? R[r].pat : 0); R[r].on = 0; }
        else add(r);
        if (W(2)) sim_sleep_ns((u64)WR(1, 900) * MS);
    }
}
static const char *an[] = {"fixed window", "sliding window", "token bucket", "leaky bucket"};
static void judge(int k) {
    int ri = rule_of(k), n = nev[k];
    if (ri < 0) return;
    rule_t *r = &R[ri];
    ev_t *e = ev[k];
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && e[j].a < e[j - 1].a; j--) { ev_t t = e[j]; e[j] = e[j - 1]; e[j - 1] = t; }
    u64 wl = (u64)r->win * SEC, g = 2 * MS;
    if (r->alg == 0) {      /* after a rule change a window may be under way */
        int i = fresh ? 0 : n;
        while (i < n && !e[i].ok) i++;
        while (i < n) {
            u64 end = e[i].a + wl;
            int cnt = 0, j = i;
            for (; j < n; j++) if (e[j].ok) { if (e[j].b + g >= end) break; cnt++; }
            CHECK((u32)cnt <= r->max, "over-rate", "fixed window: %d requests of key %s admitted in one window of %u s, the maximum is %u", cnt, K[k].s, r->win, r->max);
            while (j < n && !e[j].ok) j++;
            if (j >= n || e[j].a < e[i].b + wl) break;
            i = j;
        }
    } else if (r->alg == 1) {
        for (int i = 0; i < n; i++) if (e[i].ok) {
            int cnt = 0;
            for (int j = i; j < n; j++) if (e[j].ok && e[j].b + g < e[i].a + wl) cnt++;
            CHECK((u32)cnt <= r->max, "over-rate", "sliding window: %d requests of key %s admitted within %u s, the maximum is %u", cnt, K[k].s, r->win, r->max);
        }
    } else {
        for (int i = 0; i < n; i++) if (e[i].ok) {
            int cnt = 0;
            u64 last = 0;
            for (int j = i; j < n; j++) if (e[j].ok) {
                cnt++;
                if (e[j].b > last) last = e[j].b;
                double lim = (double)r->cap + r->rate * ((double)(last - e[i].a) / SEC + 0.002);
                CHECK((double)cnt <= lim + 1e-6, "over-rate", "%s: %d requests of key %s admitted within %.3f s, capacity %u and rate %.1f/s allow %.2f",
                      an[r->alg], cnt, K[k].s, (double)(last - e[i].a) / SEC, r->cap, r->rate, lim);
            }
        }
    }
    if (!fresh) return;
    for (int q = 0; q < n; q++) if (!e[q].ok && !e[q].oom) {
        int legit = 0;
        if (r->alg < 2) {
            int cnt = 0;
            for (int j = 0; j < n; j++) if (e[j].ok && e[j].a <= e[q].b && e[j].b + wl > e[q].a) cnt++;
            legit = (u32)cnt >= r->max;
        } else {
            for (int i = 0; i < n && !legit; i++) if (e[i].ok && e[i].a <= e[q].b) {
                int cnt = 0;
                for (int j = 0; j < n; j++) if (e[j].ok && e[j].b >= e[i].a && e[j].a <= e[q].b) cnt++;
                double dt = e[q].a > e[i].b ? (double)(e[q].a - e[i].b) / SEC - 0.002 : 0;
                if (dt < 0) dt = 0;
                if ((double)cnt - r->rate * dt > (double)r->cap - 1 - 1e-6) legit = 1;
            }
        }
        CHECK(legit, "refused-within-bound", "%s: key %s was refused although it is within its bound", an[r->alg], K[k].s);
    }
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(100000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_LEAP) | F(DK_OOM) | F(DK_CLOCK));
    sim_oom_scope(1);
    refusals = 0; memset(nev, 0, sizeof nev);
    multi = (int)C(2);
    mcp_advanced_rate_limiter_config_t cfg = {0};
    static const size_t hints[] = {1, 8, 100};
    cfg.capacity_hint = hints[C(3)];
    rl = mcp_advanced_rate_limiter_create(&cfg);
    if (!rl) { sim_probe("creation failed"); return; }
    nk = (int)CR(1, NK);
    int lead = C(4) == 3 ? (int)CR(1, 150) : 0;             /* long keys */
    for (int i = 0; i < nk; i++) {
        static const char *f[] = {"10.0.%d.7", "10.0.1.%d", "u%dx", "u%d", "9%d", "k-%d-x"};
        K[i].type = multi ? (int)C(4) : 0;
        snprintf(K[i].s, sizeof K[i].s, f[C(6)], i);
        if (lead) { size_t n = strlen(K[i].s); memmove(K[i].s + 2 + lead, K[i].s + 2, n - 1); memset(K[i].s + 2, '0', (size_t)lead); }
        if (i && C(4) == 3) strcpy(K[i].s, K[i - 1].s);     /* same text, perhaps another type */
        for (int j = 0; j < i; j++) if (K[j].type == K[i].type && !strcmp(K[j].s, K[i].s)) snprintf(K[i].s, sizeof K[i].s, "uniq%d", i);
    }
    nr = (int)CR(1, 6);
    memset(R, 0, sizeof R);
    for (int i = 0; i < nr; i++) { R[i].type = -1; }
    for (int i = 0; i < nr; i++) gen_rule(i);
    for (int i = 0; i < nr; i++) if (i == 0 || C(4)) add(i);
    int phases = (int)CR(1, 3), maxt = 1;
    fresh = 1;
    for (int p = 0; p < phases; p++) {
        changing = C(4) == 3;
        int n = (int)CR(1, 4), t[5], cnt = (int)CR(3, 50);
        if (n > maxt) maxt = n;
        memset(nev, 0, sizeof nev);
        for (int i = 0; i < n; i++) t[i] = sim_spawn(asker, (void *)(intptr_t)cnt);
        if (changing) t[n] = sim_spawn(changer, (void *)(intptr_t)CR(2, 12));
        for (int i = 0; i < n + (changing ? 1 : 0); i++) sim_join(t[i]);
        if (changing) sim_probe("rules changed under load");
        else for (int k = 0; k < nk; k++) judge(k);
        /* change the rules between phases */
        fresh = (int)C(2);
        if (fresh) mcp_advanced_rate_limiter_clear_data(rl);
        for (int i = 0; i < nr; i++) if (C(3) == 2) {
            if (R[i].on) CHECK(mcp_advanced_rate_limiter_remove_rule(rl, (mcp_rate_limit_key_type_t)R[i].type, R[i].haspat ? R[i].pat : 0), "remove-failed", "removing a rule failed");
            R[i].on = 0;
            if (C(2)) { gen_rule(i); add(i); }
        }
    }
    mcp_advanced_rate_limiter_destroy(rl);
    if (refusals) sim_probe("refused");
    if (refusals && (maxt > 1 || nk > 1)) sim_mark_nontrivial();
    sim_state((u64)refusals << 8 | (u64)nr);
}
HARNESS(p11, "P11", "advanced-limiter", run, "advanced rate limiter, read-write lock, string utilities", "kernel threads, clocks, heap allocator",
        "a request was refused and several threads or keys were involved", 1)
