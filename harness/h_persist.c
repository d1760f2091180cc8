/* P16: MQTT session persistence on a disk that fails, with crashes and power
 * loss at any file operation. */
#include "sim.h"
#include "internal/mqtt_session_persistence.h"
#include "internal/mqtt_client_internal.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void disk_on_crash(void (*fn)(void));
#define DIR_ "/data/mqtt"
static const char *const ids[] = {"dev1", "dev2", "dev", "a/b", "a_b", "a:b", "a%2Fb", "a", "b\\c", "b|c", "client-with-a-rather-long-name-000000000000000000000000001",
                                  "client-with-a-rather-long-name-000000000000000000000000002", "x y", ".mcp_dev1", "mcp_dev1"};
#define NID ((int)(sizeof ids / sizeof ids[0]))
#define NV 400
#define NA 48
/* version v of client c: its content is a function of (c, v) */
typedef struct { u64 lo, hi; } span_t;             /* wall clock span, seconds resolution kept in ns */
typedef struct {
    int id;                                         /* index in ids */
    int set[NA], nset;                              /* versions that may be stored, 0 = none */
    span_t acc[NA]; int nacc;                       /* when it may have been used last */
    int owner;
} cli_t;
static cli_t cl[8];
static int ncl, nver, verver[NV], big;
static u64 crashes, powers, loaded_ok;

static u32 h32(u32 a, u32 b, u32 c) { u64 x = (u64)a * 0x9E3779B97F4A7C15ull + (u64)b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (u32)x; }
static u32 expiry(int v) { static const u32 e[] = {0, 0, 2, 5, 60, 70000}; return e[h32((u32)v, 1, 0) % 6]; }
static int nsubs(int v) { return (int)(h32((u32)v, 2, 0) % 4); }
static int ninf(int v) { return (int)(h32((u32)v, 3, 0) % 4); }
static size_t plen(int v, int i) { u32 x = h32((u32)v, 4, (u32)i); return x % 5 == 0 ? 0 : big && x % 61 == 1 ? 65000 + x % 4000 : big && x % 3 == 0 ? x % 6000 : x % 60; }
static u8 pbyte(int v, int i, size_t k) { return (u8)h32((u32)v, 500 + (u32)i, (u32)k); }
static void stopic(int v, int i, char *b) { sprintf(b, i == 2 ? "" : "s/%d/%d%.*s", v, i, (int)(h32((u32)v, 6, (u32)i) % 20), "/long/topic/name/here"); }
static void itopic(int v, int i, char *b) { u32 x = h32((u32)v, 12, (u32)i); int n = sprintf(b, "i/%d/%d", v, i); if (x % 7 == 1) { memset(b + n, 't', x % 600); b[n + (int)(x % 600)] = 0; } }

/* builds the session of version v from harness memory */
static void build(int v, mqtt_session_data_t *s) {
    memset(s, 0, sizeof *s);
    char b[700];
    struct mqtt_subscription **st = &s->subscriptions;
    for (int i = 0; i < nsubs(v); i++) {
        struct mqtt_subscription *x = calloc(1, sizeof *x);
        stopic(v, i, b);
        x->topic = strdup(b); x->qos = (int)(h32((u32)v, 7, (u32)i) % 3); x->active = true;
        *st = x; st = &x->next;
    }
    struct mqtt_inflight_message **it = &s->inflight_messages;
    for (int i = 0; i < ninf(v); i++) {
        struct mqtt_inflight_message *x = calloc(1, sizeof *x);
        itopic(v, i, b);
        x->topic = strdup(b); x->payload_len = plen(v, i);
        x->payload = malloc(x->payload_len + 1);
        for (size_t k = 0; k < x->payload_len; k++) ((u8 *)x->payload)[k] = pbyte(v, i, k);
        x->packet_id = (uint16_t)h32((u32)v, 8, (u32)i); x->qos = 1 + (int)(h32((u32)v, 9, (u32)i) % 2); x->retain = h32((u32)v, 10, (u32)i) & 1;
        x->send_time = (u64)v * 1000 + (u64)i; x->retry_count = h32((u32)v, 11, (u32)i) % 7;
        *it = x; it = &x->next;
    }
    s->last_packet_id = 70000u + (u32)v;
    s->session_created_time = 900000000000ull + (u64)v;
    s->session_expiry_interval = expiry(v);
}
static void drop(mqtt_session_data_t *s) {
    while (s->subscriptions) { struct mqtt_subscription *n = s->subscriptions->next; free(s->subscriptions->topic); free(s->subscriptions); s->subscriptions = n; }
    while (s->inflight_messages) { struct mqtt_inflight_message *n = s->inflight_messages->next; free(s->inflight_messages->topic); free(s->inflight_messages->payload); free(s->inflight_messages); s->inflight_messages = n; }
}
static int in_set(cli_t *c, int v) { for (int i = 0; i < c->nset; i++) if (c->set[i] == v) return 1; return 0; }
static void add(cli_t *c, int v) { if (in_set(c, v)) return; if (c->nset == NA) sim_inconclusive("too many versions"); c->set[c->nset++] = v; }
static void addacc(cli_t *c, u64 lo, u64 hi) { if (c->nacc == NA) sim_inconclusive("too many uses"); c->acc[c->nacc].lo = lo; c->acc[c->nacc++].hi = hi; }
/* could the session of version v have expired by now? by the wall clock */
static int may_expire(cli_t *c, int v) {
    u32 e = expiry(v);
    if (!v || !e) return 0;
    u64 w = sim_wall_max();
    for (int i = 0; i < c->nacc; i++) if (c->acc[i].lo < w && w - c->acc[i].lo >= (u64)e * SEC) return 1;
    return 0;
}
static int must_expire(cli_t *c, int v) {
    u32 e = expiry(v);
    if (!v || !e) return 0;
    u64 w = sim_wall();
    for (int i = 0; i < c->nacc; i++) if (c->acc[i].hi == NEVER || c->acc[i].hi >= w || w - c->acc[i].hi < (u64)(e + 2) * SEC) return 0;
    return 1;
}
static void note_expiry(void) {
    for (int i = 0; i < ncl; i++) for (int k = 0; k < cl[i].nset; k++) if (may_expire(&cl[i], cl[i].set[k])) { add(&cl[i], 0); sim_probe("session old enough to expire"); break; }
}
/* all operations on one client are made by one thread; others only refresh its access time */
static void save(cli_t *c) {
    if (nver >= NV - 1) return;
    int v = ++nver;
    mqtt_session_data_t s;
    sim_nofault_begin(); build(v, &s); sim_nofault_end();
    note_expiry();
    u64 w0 = sim_wall();
    u32 j0 = sim_wall_jumps();
    int acc0 = c->nacc;
    add(c, v);
    addacc(c, w0, NEVER);
    int r = mqtt_session_save(ids[c->id], &s);
    u64 w1 = sim_wall();
    c->acc[acc0].hi = w1;
    if (sim_wall_jumps() != j0) { c->acc[acc0].lo = 0; c->acc[acc0].hi = NEVER - 1; }
    if (r == 0) {
        c->nset = 0; add(c, v);
        span_t me = c->acc[acc0];
        int n = 0;
        for (int i = acc0 + 1; i < c->nacc; i++) c->acc[n++] = c->acc[i];   /* refreshed meanwhile */
        for (int i = 0; i < acc0 && n < NA; i++) if (c->acc[i].hi == NEVER) c->acc[n++] = c->acc[i];
        c->nacc = n;
        addacc(c, me.lo, me.hi);
    } else sim_probe("save failed");
    sim_nofault_begin(); drop(&s); sim_nofault_end();
}
static int matches(int v, const mqtt_session_data_t *s, const char **why) {
    char b[700];
    *why = "times or packet id";
    if (s->last_packet_id != 70000u + (u32)v || s->session_created_time != 900000000000ull + (u64)v || s->session_expiry_interval != expiry(v)) return 0;
    *why = "subscriptions";
    struct mqtt_subscription *x = s->subscriptions;
    for (int i = 0; i < nsubs(v); i++, x = x->next) {
        stopic(v, i, b);
        if (!x || strcmp(x->topic, b) || x->qos != (int)(h32((u32)v, 7, (u32)i) % 3)) return 0;
    }
    if (x) return 0;
    *why = "in-flight messages";
    struct mqtt_inflight_message *m = s->inflight_messages;
    for (int i = 0; i < ninf(v); i++, m = m->next) {
        itopic(v, i, b);
        if (!m || strcmp(m->topic, b) || m->payload_len != plen(v, i) || m->packet_id != (uint16_t)h32((u32)v, 8, (u32)i) || m->qos != 1 + (int)(h32((u32)v, 9, (u32)i) % 2) ||
            m->retain != (h32((u32)v, 10, (u32)i) & 1) || m->send_time != (u64)v * 1000 + (u64)i || m->retry_count != h32((u32)v, 11, (u32)i) % 7) return 0;
        for (size_t k = 0; k < m->payload_len; k++) if (((u8 *)m->payload)[k] != pbyte(v, i, k)) return 0;
    }
    return m == 0;
}
static void info(cli_t *c, int exact) {
    u64 a, b;
    u32 e;
    if (mqtt_session_get_info(ids[c->id], &a, &b, &e) == 0) {
        int v = (int)(a - 900000000000ull);
        CHECK(in_set(c, v) && e == expiry(v), "wrong-info", "client '%s': information of version %d is given", ids[c->id], v);
    } else if (exact) {
        note_expiry();
        CHECK(in_set(c, 0), "session-lost", "no information is given about the session of client '%s', which can be loaded", ids[c->id]);
    }
}
static int load(cli_t *c, int exact) {
    mqtt_session_data_t s;
    memset(&s, 0, sizeof s);
    note_expiry();
    int expired[NA];
    for (int i = 0; i < c->nset; i++) expired[i] = must_expire(c, c->set[i]);
    int n = c->nset;
    u32 j0 = sim_wall_jumps();
    int said = exact ? mqtt_session_is_expired(ids[c->id]) : 0, sure = exact && n == 1 && c->set[0] && expired[0];
    int r = mqtt_session_load(ids[c->id], &s);
    note_expiry();
    if (sure && sim_wall_jumps() == j0) CHECK(said, "wrong-info", "the expired session of client '%s' is not called expired", ids[c->id]);
    if (r) {
        if (exact) CHECK(in_set(c, 0), "session-lost", "the session of client '%s' cannot be loaded, version %d was saved", ids[c->id], c->set[0]);
        return 0;
    }
    loaded_ok++;
    int vv = (int)(s.session_created_time - 900000000000ull);
    if (said && vv > 0 && vv <= nver) CHECK(may_expire(c, vv), "wrong-info", "the session of client '%s' is called expired, which it is not", ids[c->id]);
    const char *why = "";
    int v = (int)(s.session_created_time - 900000000000ull);
    CHECK(v > 0 && v <= nver, "invented-session", "client '%s' loaded a session that was never saved", ids[c->id]);
    CHECK(matches(v, &s, &why), "mixed-session", "client '%s' loaded version %d with wrong %s", ids[c->id], v, why);
    int other = 1;
    for (int i = 0; i < c->nset; i++) if (c->set[i] == v) { other = 0; if (i < n) CHECK(!expired[i] || sim_wall_jumps() != j0, "expired-loaded", "client '%s' loaded version %d although it has expired", ids[c->id], v); }
    CHECK(!other, c->nset == 1 && c->set[0] == 0 ? "deleted-session-back" : "wrong-session", "client '%s' loaded version %d, expected one of %d versions, the newest %d", ids[c->id], v, c->nset, c->set[c->nset - 1]);
    drop(&s);
    if (exact) info(c, 1);
    return v;
}
static void del(cli_t *c) {
    note_expiry();
    add(c, 0);
    if (mqtt_session_delete(ids[c->id]) == 0) { c->nset = 0; add(c, 0); int n = 0; for (int i = 0; i < c->nacc; i++) if (c->acc[i].hi == NEVER) c->acc[n++] = c->acc[i]; c->nacc = n; sim_probe("session deleted"); }
}
static void refresh(cli_t *c) {
    note_expiry();
    addacc(c, sim_wall_jumps() ? 0 : sim_wall(), NEVER);
    mqtt_session_update_access_time(ids[c->id]);
    /* the moment stays open: another thread may have saved meanwhile and moved the list */
}
static int gen;
static void crash(void) { sim_kill_group(1); }
static void user(void *arg) {
    int me = (int)(intptr_t)arg, mine[8], m = 0;
    for (int i = 0; i < ncl; i++) if (cl[i].owner == me) mine[m++] = i;
    if (!m) return;
    int n = (int)WR(2, 12);
    for (int i = 0; i < n; i++) {
        cli_t *c = &cl[mine[W((u32)m)]];
        u32 w = W(14);
        if (w < 6) save(c);
        else if (w < 9) load(c, 0);
        else if (w == 9) del(c);
        else if (w == 10) refresh(&cl[W((u32)ncl)]);
        else if (w == 11) { note_expiry(); mqtt_session_cleanup_expired(); note_expiry(); }
        else if (w == 12) info(c, 0);
        else if (mqtt_session_exists(ids[c->id])) CHECK(!(c->nset == 1 && c->set[0] == 0), "deleted-session-back", "client '%s' has a session after it was deleted", ids[c->id]);
        u32 k = W(12);
        if (k == 1) sim_sleep_ns((u64)WR(1, 900) * MS);
        else if (k == 2) sim_sleep_ns((u64)WR(1, 7) * SEC);
        else if (k == 3 && W(3) == 0) sim_sleep_ns(W(4) ? 61 * SEC : 70100 * SEC);
    }
}
static void process(void *arg) {
    int nt = (int)(intptr_t)arg, t[3];
    sim_group(1);
    if (mqtt_session_persistence_init(DIR_)) { sim_probe("initialisation failed"); return; }
    for (int i = 0; i < nt; i++) t[i] = sim_spawn(user, (void *)(intptr_t)i);
    for (int i = 0; i < nt; i++) sim_join(t[i]);
    disk_on_crash(0);
    if (W(2)) mqtt_session_persistence_cleanup();
    disk_on_crash(crash);
}
static void verify(void *arg) {
    (void)arg;
    sim_nofault_begin();
    sim_globals_reset();
    CHECK(mqtt_session_persistence_init(DIR_) == 0, "init-failed", "persistence cannot be initialised after a restart");
    for (int i = 0; i < ncl; i++) {
        int v = load(&cl[i], 1), v2 = load(&cl[i], 1);
        CHECK(v == v2 || may_expire(&cl[i], v), "unstable", "client '%s' loads version %d and then %d", ids[cl[i].id], v, v2);
    }
    mqtt_session_persistence_cleanup();
    sim_nofault_end();
}
static void run(void) {
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    sim_limit(4000000 * SEC, 3000000);
    sim_configure(F(DK_STALL) | F(DK_CLOCK) | F(DK_OOM) | F(DK_DISK_WRITE) | F(DK_DISK_FULL) | F(DK_DISK_READ) | F(DK_DISK_META) | F(DK_CRASH) | F(DK_LOSE));
    ncl = (int)CR(1, 6); nver = 0; big = (int)C(2); crashes = powers = loaded_ok = 0;
    int nt = (int)CR(1, 3), gens = (int)CR(1, 4), base = (int)C(NID);
    memset(cl, 0, sizeof cl);
    for (int i = 0; i < ncl; i++) { cl[i].id = (base + i) % NID; cl[i].owner = i % nt; add(&cl[i], 0); }
    sim_nofault_begin();
    int sim_mkdir(const char *, unsigned);
    sim_mkdir("/data", 0755);
    disk_put("/data/keep", "x", 1);
    sim_nofault_end();
    u64 cap = C(4) == 3 ? (u64)CR(100, 4000) : 0;
    for (gen = 0; gen < gens; gen++) {
        sim_globals_reset();
        mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
        disk_on_crash(crash);
        if (cap) disk_capacity(cap);
        int p = sim_spawn(process, (void *)(intptr_t)nt);
        sim_join(p);
        while (sim_group_alive(1)) sim_sleep_ns(MS);
        disk_on_crash(0);
        disk_capacity(NEVER);
        u32 how = W(3);
        if (how == 2) { disk_power_loss(); powers++; }
        else if (how == 1) { disk_process_crash(); crashes++; }
        for (int i = 0; i < ncl; i++) for (int k = 0; k < cl[i].nacc; k++) if (cl[i].acc[k].hi == NEVER) { cl[i].acc[k].hi = NEVER - 1; if (sim_wall_jumps()) cl[i].acc[k].lo = 0; }
        if (W(8) == 1) sim_sleep_ns(W(2) ? 61 * SEC : 70100 * SEC);
        int q = sim_spawn(verify, 0);
        sim_join(q);
    }
    /* with a working disk everything works again */
    sim_faults_off();
    sim_globals_reset();
    mcp_log_set_level(MCP_LOG_LEVEL_FATAL);
    CHECK(mqtt_session_persistence_init(DIR_) == 0, "init-failed", "persistence cannot be initialised");
    for (int i = 0; i < ncl; i++) {
        int v = nver + 1;
        if (v >= NV - 1) break;
        cl[i].nacc = 0;
        save(&cl[i]);
        CHECK(cl[i].nset == 1 && cl[i].set[0] == v, "save-failed", "saving the session of client '%s' fails on a working disk", ids[cl[i].id]);
    }
    for (int i = 0; i < ncl; i++) load(&cl[i], 1);
    del(&cl[0]);
    CHECK(cl[0].nset == 1 && cl[0].set[0] == 0, "delete-failed", "deleting a session fails on a working disk");
    CHECK(!mqtt_session_exists(ids[cl[0].id]), "deleted-session-back", "a deleted session still exists");
    for (int i = 0; i < ncl; i++) load(&cl[i], 1);
    if (powers) sim_probe("power loss");
    if (loaded_ok >= 2) sim_mark_nontrivial();
    sim_state(crashes << 24 | powers << 16 | (u64)ncl << 8 | (u64)gens);
}
HARNESS(p16, "P16", "mqtt-sessions", run, "MQTT session persistence, lock wrappers", "file system with page cache and power loss, kernel threads, clocks, heap allocator",
        "at least two sessions were loaded back", 1)
