/* P19: gateway routing while the configuration file is rewritten and reloaded. */
#include "sim.h"
#include "mcp_gateway_config_manager.h"
#include "mcp_gateway_routing.h"
#include "mcp_json.h"
#include "mcp_arena.h"
#include "mcp_log.h"
#include <regex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int sim_rename(const char *a, const char *b);
int sim_unlink(const char *p);
#define CONF "/gw.json"
#define NVER 64
#define NB 5
#define NIT 4
static const char *const uris[] = {"res://a/1", "res://a/22", "res://b/1", "res://", "file:///x", "file:///x/y", "res://ab", "", "q\"uote", "RES://a/1", "x7", "weather://today", "weather://today/europe/north/1", "weather://today/europe/south/1"};
static const char *const prefs[] = {"res://a", "res://", "file:///x", "file:///x/y", "q\"", "res://b/1", "nothing:", "", "weather://today/europe/north", "weather://today/europe/south/1"};
static const char *const tools[] = {"add", "ad", "addx", "sub", "Add", "with space", "t\\b"};
static const char *const regs[] = {"^res://[ab]/[0-9]+$", "y$", "^x[0-9]", "b", "^(res|file)://", "\\.", "^$", "o.*y"};
#define N(a) ((int)(sizeof(a) / sizeof *(a)))
struct be { int np, p[NIT], nt, t[NIT], nr, r[NIT]; };
static struct ver { int valid, n; struct be b[NB]; } V[NVER];
static int nver, cur_file;                   /* the file holds version cur_file; versions only grow */
static struct rl { int used, lo, hi; } rls[8]; /* reloads in progress */
static u8 loaded[NVER];
static int lo_bound, done, faults, publishing;
static gateway_config_manager_t *mgr;
static regex_t rx[N(regs)];

static char *jstr(char *o, const char *s) {
    *o++ = '"';
    for (; *s; s++) { if (*s == '"' || *s == '\\') *o++ = '\\'; *o++ = *s; }
    *o++ = '"'; *o = 0;
    return o;
}
static char *jarr(char *o, const char *name, int n, const int *ix, const char *const *tab, int pad) {
    o += sprintf(o, ",%.*s", pad, "                    ");
    o = jstr(o, name);
    o += sprintf(o, ":[");
    for (int i = 0; i < n; i++) { if (i) *o++ = ','; o = jstr(o, tab[ix[i]]); }
    return o + sprintf(o, "]");
}
static size_t render(int v, char *buf, int broken) {
    char *o = buf;
    struct ver *x = &V[v];
    int pad = (int)W(3) == 1 ? 20 : 0;
    if (x->n == 0 && W(3) == 1 && !broken) return 0;
    o += sprintf(o, broken == 1 ? "{\"b\":" : "[");
    for (int i = 0; i < x->n; i++) {
        struct be *b = &x->b[i];
        int last = i == x->n - 1;
        if (i) *o++ = ',';
        if (last && broken == 2) { o += sprintf(o, "17"); continue; }
        *o++ = '{';
        if (last && broken == 3) o += sprintf(o, "\"nam\":\"z\"");
        else if (last && broken == 4) o += sprintf(o, "\"name\":5");
        else o += sprintf(o, "\"name\":\"b%d-v%d\"", i, v);
        for (int k = 0; k < pad * 8; k++) *o++ = ' ';
        if (!(last && broken == 5)) o += sprintf(o, ",\"address\":\"tcp://h%d:%d\"", i, 100 + v);
        if (W(2)) o += sprintf(o, ",\"timeout_ms\":%d", 1000 + v * 10 + i);
        if (last && broken == 6) { *o++ = '}'; continue; }
        o += sprintf(o, ",\"routing\":{\"x\":0");
        if (b->np || W(2)) o = jarr(o, "resource_prefixes", b->np, b->p, prefs, pad);
        if (b->nt || W(2)) o = jarr(o, "tool_names", b->nt, b->t, tools, pad);
        if (last && broken == 7) o += sprintf(o, ",\"resource_regexes\":[\"ok\",\"(\"]");
        else if (last && broken == 8) o += sprintf(o, ",\"resource_regexes\":[\"ok\",4]");
        else if (b->nr || W(2)) o = jarr(o, "resource_regexes", b->nr, b->r, regs, pad);
        o += sprintf(o, "}}");
    }
    o += sprintf(o, broken == 1 ? "}" : "]");
    if (broken == 9) o -= 1 + (long)W((u32)(o - buf - 1));
    *o = 0;
    return (size_t)(o - buf);
}
static void publish(int first) {
    static char buf[65536];
    int v = nver;
    if (v >= NVER || publishing) return;
    publishing = 1;
    struct ver *x = &V[v];
    memset(x, 0, sizeof *x);
    int r = (int)W(8), broken = first || r < 5 || v == NVER - 1 ? 0 : 1 + (int)W(10);
    x->n = (int)W(NB + 1);
    if (broken && x->n == 0) x->n = 1;
    for (int i = 0; i < x->n; i++) {
        struct be *b = &x->b[i];
        b->np = (int)W(NIT + 1); b->nt = (int)W(NIT + 1); b->nr = (int)W(NIT + 1);
        for (int k = 0; k < NIT; k++) { b->p[k] = (int)W(N(prefs)); b->t[k] = (int)W(N(tools)); b->r[k] = (int)W(N(regs)); }
    }
    x->valid = !broken;
    nver++;
    sim_nofault_begin();
    if (broken == 10) sim_unlink(CONF);
    else {
        size_t n = render(v, buf, broken);
        if (broken == 9 && n == 0) x->valid = 1, x->n = 0;
        sim_log("%.500s", buf);
        disk_put("/gw.tmp", buf, n);
        if (sim_rename("/gw.tmp", CONF)) sim_fail("harness", "rename failed");
    }
    sim_nofault_end();
    cur_file = v;
    publishing = 0;
    for (int i = 0; i < 8; i++) if (rls[i].used) rls[i].hi = v;
    sim_log("file version %d (%s, %d backends)", v, x->valid ? "valid" : "broken", x->n);
}
static int first_valid(int lo, int hi) { for (; lo <= hi; lo++) if (V[lo].valid) return lo; return -1; }
static void reload(void) {
    int s;
    for (s = 0; rls[s].used; s++) ;
    rls[s] = (struct rl){1, cur_file, cur_file};
    u64 f0 = sim_alloc_failed();
    mcp_error_code_t e = gateway_config_manager_reload(mgr);
    int lo = rls[s].lo, hi = rls[s].hi;
    rls[s].used = 0;
    sim_log("reload of %d..%d: %d", lo, hi, (int)e);
    if (e == MCP_ERROR_NONE) {
        int fv = first_valid(lo, hi);
        CHECK(fv >= 0, "bad-config", "loading a broken or missing configuration file was reported as a success");
        for (int v = fv; v <= hi; v++) if (V[v].valid) loaded[v] = 1;
        if (fv > lo_bound) lo_bound = fv;
    } else {
        CHECK(faults || sim_alloc_failed() != f0 || first_valid(lo, hi) < 0 || hi > lo, "load-fails", "loading a correct configuration failed with error %d", (int)e);
        sim_probe("reload failed");
    }
}
static int route(int v, int tool, const char *s) {
    for (int i = 0; i < V[v].n; i++) {
        struct be *b = &V[v].b[i];
        if (tool) { for (int k = 0; k < b->nt; k++) if (!strcmp(tools[b->t[k]], s)) return i; continue; }
        for (int k = 0; k < b->np; k++) if (!strncmp(prefs[b->p[k]], s, strlen(prefs[b->p[k]]))) return i;
        for (int k = 0; k < b->nr; k++) if (!regexec(&rx[b->r[k]], s, 0, 0, 0)) return i;
    }
    return -1;
}
static int candidate(int v, int lo) {
    if (v < lo || v > cur_file || !V[v].valid) return 0;
    if (loaded[v]) return 1;
    for (int i = 0; i < 8; i++) if (rls[i].used && v >= rls[i].lo && v <= rls[i].hi) return 1;
    return 0;
}
static void check_be(const mcp_backend_info_t *b, int v, int i, const char *when) {
    char nm[32], ad[40];
    snprintf(nm, sizeof nm, "b%d-v%d", i, v);
    snprintf(ad, sizeof ad, "tcp://h%d:%d", i, 100 + v);
    CHECK(sim_heap_live(b, sizeof *b), "freed", "the backend a request was routed to is released memory (%s)", when);
    CHECK(sim_heap_live(b->name, strlen(nm) + 1) && !strcmp(b->name, nm) && sim_heap_live(b->address, strlen(ad) + 1) && !strcmp(b->address, ad), "freed", "the backend a request was routed to has changed or is released memory (%s)", when);
    CHECK(b->timeout_ms == 0 || b->timeout_ms == (u32)(1000 + v * 10 + i), "wrong-backend", "backend %s has time-out %u", nm, b->timeout_ms);
}
static void arena(void) { sim_nofault_begin(); if (mcp_arena_init_current_thread(MCP_ARENA_DEFAULT_SIZE)) sim_fail("setup", "no arena"); sim_nofault_end(); }
static void one_request(void) {
    mcp_request_t q;
    memset(&q, 0, sizeof q);
    int kind = (int)W(8), tool = kind >= 4 && kind < 7, odd = kind == 7;
    const char *what = tool ? tools[W(N(tools))] : uris[W(N(uris))];
    sim_nofault_begin();
    mcp_json_t *par = mcp_json_object_create(), *odd_par = 0;
    mcp_json_object_set_property(par, tool ? "name" : "uri", mcp_json_string_create(what));
    q.id = 1; q.method = tool ? "call_tool" : "read_resource"; q.params = par;
    if (odd) {
        static const char *const om[] = {"ping", "list_tools", "read_resourc", "call_tools"};
        int o = (int)W(4);
        if (o == 0) q.method = (char *)om[W(4)];
        else if (o == 1) q.params = 0;
        else if (o == 2) q.params = odd_par = mcp_json_string_create("x");
        else q.method = "call_tool";           /* has a uri, but no name */
    }
    sim_nofault_end();
    int lo = lo_bound;
    u64 f0 = sim_alloc_failed();
    const mcp_backend_info_t *b = gateway_config_manager_find_backend(mgr, &q);
    if (odd) CHECK(!b, "wrong-backend", "a request that names neither tool nor resource was routed to %s", b->name);
    else if (b) {
        int i = -1, v = -1;
        CHECK(sim_heap_live(b, sizeof *b), "freed", "the backend a request was routed to is released memory (on return)");
        if (b->name && sim_heap_live(b->name, 1)) sscanf(b->name, "b%d-v%d", &i, &v);
        CHECK(v >= 0 && v < nver, "freed", "the backend a request was routed to has no name");
        CHECK(candidate(v, lo), "stale", "routed by version %d of the configuration although version %d had been loaded (file has %d)", v, lo, cur_file);
        CHECK(route(v, tool, what) == i, "wrong-backend", "%s '%s' was routed to backend %d, the first match in this configuration is %d", tool ? "tool" : "resource", what, i, route(v, tool, what));
        check_be(b, v, i, "on return");
        if (v > lo_bound) lo_bound = v;
        sim_probe("routed");
        sim_mark_nontrivial();
        sim_state((u64)i << 8 | (u64)(V[v].n << 4) | (u64)tool << 2 | (u64)(cur_file != v));
        if (W(3) == 1) {
            sim_sleep_ns(WR(1, 30) * MS);
            if (lo_bound > v) sim_probe("used after a reload");
            check_be(b, v, i, "a little later");
        }
    } else {
        int ok = sim_alloc_failed() != f0;
        for (int v = lo; v <= cur_file && !ok; v++) ok = candidate(v, lo) && route(v, tool, what) < 0;
        CHECK(ok, "not-routed", "%s '%s' was not routed although every configuration in force has a backend for it", tool ? "tool" : "resource", what);
    }
    mcp_json_destroy(par);
    mcp_json_destroy(odd_par);
}
static void list_backends(void) {
    size_t n = 99;
    int lo = lo_bound, i = -1, v = -1;
    const mcp_backend_info_t *b = gateway_config_manager_get_backends(mgr, &n);
    if (!n) {
        int ok = 0;
        for (v = lo; v <= cur_file && !ok; v++) ok = candidate(v, lo) && V[v].n == 0;
        CHECK(ok, "wrong-list", "an empty backend list was returned");
        return;
    }
    CHECK(b && sim_heap_live(b, sizeof *b) && b->name && sim_heap_live(b->name, 1), "freed", "the backend list is released memory");
    sscanf(b->name, "b%d-v%d", &i, &v);
    CHECK(v >= 0 && v < nver && candidate(v, lo) && (size_t)V[v].n == n, "wrong-list", "the backend list has %zu entries of version %d", n, v);
    if (W(2)) sim_sleep_ns(WR(1, 20) * MS);
    for (size_t k = 0; k < n; k++) check_be(&b[k], v, (int)k, "in a list");
    if (v > lo_bound) lo_bound = v;
}
static int nq;
static void router(void *a) {
    (void)a;
    arena();
    for (int n = nq; n > 0; n--) {
        if (W(10) == 1) list_backends(); else one_request();
        mcp_arena_reset_current_thread();
        if (W(2)) sim_sleep_ns(WR(0, 10) * MS);
    }
    mcp_arena_destroy_current_thread();
}
static void reloader(void *a) {
    (void)a;
    arena();
    while (!done) {
        if (W(2)) sim_sleep_ns(WR(0, 12) * MS);
        if (W(3)) publish(0);
        reload();
        mcp_arena_reset_current_thread();
    }
    mcp_arena_destroy_current_thread();
}
static void run(void) {
    sim_limit(4000 * SEC, 4000000);
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_OOM) | F(DK_DISK_READ) | F(DK_DISK_META));
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    nver = 1; cur_file = 0; memset(rls, 0, sizeof rls); memset(loaded, 0, sizeof loaded); memset(V, 0, sizeof V); lo_bound = 0; done = 0; publishing = 0;
    for (int i = 0; i < N(regs); i++) if (regcomp(&rx[i], regs[i], REG_EXTENDED | REG_NOSUB)) sim_fail("harness", "regex");
    faults = sim_get_rate(DK_DISK_READ) || sim_get_rate(DK_DISK_META);
    nq = (int)CR(5, 40);
    arena();
    publish(1);
    sim_nofault_begin();
    mgr = gateway_config_manager_create(CONF);
    sim_nofault_end();
    CHECK(mgr, "setup", "a correct configuration could not be loaded");
    lo_bound = cur_file; loaded[cur_file] = 1;
    int nr = (int)CR(1, 4), nl = (int)CR(1, 2), t[4], l[2];
    for (int i = 0; i < nr; i++) t[i] = sim_spawn(router, 0);
    for (int i = 0; i < nl; i++) l[i] = sim_spawn(reloader, 0);
    for (int i = 0; i < nr; i++) sim_join(t[i]);
    done = 1;
    for (int i = 0; i < nl; i++) sim_join(l[i]);
    sim_faults_off();
    faults = 0;
    if (nver < NVER) publish(1);
    if (V[cur_file].valid) { reload(); CHECK(lo_bound == cur_file, "load-fails", "the last configuration was not loaded"); }
    for (int i = 0; i < 6; i++) one_request();
    mcp_arena_destroy_current_thread();
    gateway_config_manager_destroy(mgr);
    for (int i = 0; i < N(regs); i++) regfree(&rx[i]);
}
HARNESS(gwconf, "P19", "gateway-routing", run, "gateway configuration loader, manager and routing, JSON parser, locks, regular expressions of the C library",
        "disk, scheduler, allocator", "a run counts as non-trivial when a request was routed to a backend of a configuration", 1)
MEMORY_HARNESS(gwconf_mem, "memory-gateway-routing", run,
        "gateway configuration loader, manager and routing, JSON parser, locks, regular expressions of the C library",
        "disk, scheduler, allocator", 1)
