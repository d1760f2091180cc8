/* P31: the log file.  Threads log records while another one changes level,
 * format and file; every record carries its number, so that the files tell
 * which records arrived, how often and whether whole. */
#include "sim.h"
#include "jmini.h"
#include "mcp_log.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define NT 4
#define NREC 120
#define NOP 40
static const char *const lvname[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
static const char *const path[] = {"a.log", "logs/a.log", "logs/deep/er/b.log"};
/* what is in force: settings change during an operation, from before to after */
struct set { int level, quiet, json, file; };                 /* file -1: none */
static struct op { u64 t0, t1; struct set was, is; } O[NOP];   /* t1 0: not over */
static int nop;
static struct set now;
static struct rec { u64 t0, t1, w0, w1; int thread, level, structured, line, found, full; u32 len; const char *file, *comp, *event; char *msg; } R[NREC];
static int nrec, full, crashed, raw;                           /* raw: control characters, too */
static u64 tick, full_since;

/* every combination of settings a record can have met */
static void met(struct rec *r, int *lmin, int *lmax, int *qmay, int *qmust, int *jmay, int *jmust, u32 *files, int *sure) {
    struct set s[NOP + 1];
    int n = 0, last = -1;
    for (int i = 0; i < nop; i++) if (O[i].t1 && O[i].t1 < r->t0) last = i;
    s[n++] = last >= 0 ? O[last].is : O[0].was;
    int busy = 0;
    for (int i = last + 1; i < nop; i++) if (O[i].t0 < r->t1) { s[n++] = O[i].is; busy |= O[i].was.file != O[i].is.file || O[i].was.file >= 0; }
    *lmin = 9; *lmax = -1; *qmay = 0; *qmust = 1; *jmay = 0; *jmust = 1; *files = 0; *sure = 1;
    for (int i = 0; i < n; i++) {
        if (s[i].level < *lmin) *lmin = s[i].level;
        if (s[i].level > *lmax) *lmax = s[i].level;
        *qmay |= s[i].quiet; *qmust &= s[i].quiet; *jmay |= s[i].json; *jmust &= s[i].json;
        if (s[i].file >= 0) *files |= 1u << s[i].file; else *sure = 0;
    }
    for (int i = last + 1; i < nop; i++) if (O[i].t0 < r->t1 && O[i].was.level == -2) *sure = 0;
    (void)busy;
}
static void make_msg(struct rec *r, int id) {
    char b[1400];
    u32 n = W(6) == 0 ? WR(0, 1200) : WR(0, 60);
    size_t l = (size_t)snprintf(b, sizeof b, "R%d:", id);
    for (u32 i = 0; i < n; i++) b[l++] = W(9) ? (char)('a' + W(26)) : "\"\\/{}[]:, %\x7f\t"[W(13)];
    if (raw && W(3) == 0) {
        u32 k = W(4) == 0 ? 1 : 6;
        for (size_t i = l - n; i < l; i++) if (W(k) == 0) b[i] = "\n\r\x01\x1f\b\f"[W(6)];
    }
    if (n > 4 && W(4) == 0) { b[l - 2] = (char)0xC3; b[l - 1] = (char)0xA9; }
    l += (size_t)snprintf(b + l, sizeof b - l, ":E%d", id);
    r->msg = strdup(b);
    r->len = (u32)l;
}
/* the message as the record must show it: at most 1023 bytes */
static u32 shown(struct rec *r) { return r->len > 1023 ? 1023 : r->len; }
/* its length as JSON text; one that needs more than 2047 bytes may be cut shorter */
static u32 escaped(struct rec *r) {
    u32 n = 0;
    for (u32 i = 0; i < shown(r); i++) { u8 c = (u8)r->msg[i]; n += c == '"' || c == '\\' || (c >= 8 && c <= 13 && c != 11) ? 2 : c < 32 ? 6 : 1; }
    return n;
}
static int stamp_ok(const char *s, struct rec *r) {
    char a[24], b[24];
    time_t x = (time_t)(r->w0 / SEC), y = (time_t)(r->w1 / SEC);
    struct tm t;
    strftime(a, sizeof a, "%Y-%m-%d %H:%M:%S", gmtime_r(&x, &t));
    strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", gmtime_r(&y, &t));
    return strncmp(s, a, 19) >= 0 && strncmp(s, b, 19) <= 0;
}
static int number_at(const char *p) { return *p == 'R' && p[1] >= '0' && p[1] <= '9' ? atoi(p + 1) : -1; }
static void check_line(char *l, int file) {
    struct rec *r = 0;
    int id = -1, json = l[0] == '{';
    char want[1500];
    if (json) {
        J *j = j_parse(l);
        CHECK(j && j->t == 'o', "torn", "a line is not a JSON object: %.160s", l);
        J *m = j_get(j, "message"), *ts = j_get(j, "timestamp"), *lv = j_get(j, "level");
        CHECK(m && m->t == 's' && ts && ts->t == 's' && strlen(ts->s) == 19 && lv && lv->t == 's', "torn", "a record lacks fields: %.160s", l);
        id = number_at(m->s);
        if (id >= 0) {
            CHECK(id < nrec, "torn", "a record nobody logged: %.100s", l);
            r = &R[id];
            size_t ml = strlen(m->s);
            CHECK((ml == shown(r) || (escaped(r) > 2047 && ml < shown(r) && ml > 300)) && !memcmp(m->s, r->msg, ml), "changed", "record %d reads %.100s", id, m->s);
            CHECK(!strcmp(lv->s, lvname[r->level]), "changed", "record %d has level %s", id, lv->s);
            CHECK(stamp_ok(ts->s, r), "wrong-time", "record %d is stamped %s", id, ts->s);
            J *a = j_get(j, r->structured ? "component" : "file"), *b = j_get(j, r->structured ? "event" : "line");
            CHECK(a && a->t == 's' && !strcmp(a->s, r->structured ? r->comp : "code.c"), "changed", "record %d: origin %.60s", id, l);
            CHECK(b && (r->structured ? b->t == 's' && !strcmp(b->s, r->event) : b->t == 'd' && (int)b->n == r->line), "changed", "record %d: origin %.60s", id, l);
        }
        j_free(j);
    } else {
        CHECK(l[0] == '[' && strlen(l) > 22 && l[20] == ']' && l[5] == '-' && l[11] == ' ' && l[14] == ':', "torn", "a line does not begin like a record: %.100s", l);
        char *p = strstr(l, "] R");
        if (p) id = number_at(p + 2);
        if (id >= 0) {
            CHECK(id < nrec, "torn", "a record nobody logged: %.100s", l);
            r = &R[id];
            int n = r->structured ? snprintf(want, sizeof want, "] [%s] [%s|%s] ", lvname[r->level], r->comp, r->event)
                                  : snprintf(want, sizeof want, "] [code.c:%d] [%s] ", r->line, lvname[r->level]);
            CHECK(!strncmp(l + 20, want, (size_t)n), "changed", "record %d begins %.100s", id, l);
            CHECK(strlen(l + 20 + n) == shown(r) && !memcmp(l + 20 + n, r->msg, shown(r)), "changed", "record %d reads %.100s", id, l + 20 + n);
            CHECK(stamp_ok(l + 1, r), "wrong-time", "record %d is stamped %.20s", id, l);
        }
    }
    if (!r) return;
    CHECK(!r->found, "twice", "record %d was written twice", id);
    r->found = 1;
    int lmin, lmax, qmay, qmust, jmay, jmust, sure; u32 files;
    met(r, &lmin, &lmax, &qmay, &qmust, &jmay, &jmust, &files, &sure);
    CHECK(r->level >= lmin, "below-level", "record %d of level %d was written, the level was %d", id, r->level, lmin);
    CHECK(!qmust, "not-quiet", "record %d was written while logging was off", id);
    CHECK(json ? jmay : !jmust, "wrong-format", "record %d was written as %s", id, json ? "JSON" : "text");
    CHECK(files >> file & 1, "wrong-file", "record %d was written to %s", id, path[file]);
}
static char buf[400000];
static int has_rec(int file, int id) {
    char k[20];
    int kl = snprintf(k, sizeof k, "R%d:", id);
    long n = disk_get(path[file], buf, sizeof buf - 1);
    for (long i = 0; i + kl <= n; i++) if (buf[i] == 'R' && !memcmp(buf + i, k, (size_t)kl)) {
        long e = i;
        while (e < n && buf[e] != '\n') e++;
        if (e < n) return 1;
    }
    return 0;
}
/* must the record be in a file (and in which) as soon as its call has returned? */
static int must(struct rec *r, int *file) {
    int lmin, lmax, qmay, qmust, jmay, jmust, sure; u32 files;
    met(r, &lmin, &lmax, &qmay, &qmust, &jmay, &jmust, &files, &sure);
    if (r->level < lmax || qmay || !sure || !files || files & (files - 1) || r->full) return 0;
    *file = __builtin_ctz(files);
    return 1;
}
static void writer(void *a) {
    static const char *const comp[] = {"TCPServer", "J\"q", "c\\x", "-"}, *const ev[] = {"Accepted", "E v", "x\"", ""};
    int me = (int)(long)a, n = (int)WR(1, 14);
    for (int i = 0; i < n && nrec < NREC && !crashed; i++) {
        int id = nrec++, f;
        struct rec *r = &R[id];
        r->thread = me; r->level = (int)W(6); r->structured = W(4) == 0; r->line = (int)WR(1, 5000);
        r->file = (const char *[]){"code.c", "/abs/dir/code.c", "src/code.c"}[W(3)];
        r->comp = comp[W(4)]; r->event = ev[W(4)];
        make_msg(r, id);
        r->full = full;
        r->w0 = sim_wall(); r->t0 = ++tick; r->t1 = ~0ull;
        if (r->structured) mcp_log_structured((mcp_log_level_t)r->level, r->comp, r->event, "%s", r->msg);
        else mcp_log_log((mcp_log_level_t)r->level, r->file, r->line, "%s", r->msg);
        r->t1 = ++tick; r->w1 = sim_wall();
        if (full || full_since > r->t0) r->full = 1;
        sim_log("record %d level %d%s", id, r->level, r->full ? " (disk full)" : "");
        if (W(2) && must(r, &f)) CHECK(has_rec(f, id), "not-written", "record %d is not in %s after its call returned", id, path[f]);
        sim_mark_nontrivial();
        if (W(5) == 0) sim_sleep_ns(WR(1, 1500) * MS);
    }
}
static void op_begin(struct set is, int moves) {
    struct op *o = &O[nop];
    o->was = now; o->is = is;
    if (moves) o->was.level = -2;                 /* records may miss every file meanwhile */
    o->t1 = 0; o->t0 = ++tick;
    nop++;
}
static void op_end(void) { struct op *o = &O[nop - 1]; o->t1 = ++tick; now = o->is; }
static void settings(void *a) {
    (void)a;
    int n = (int)WR(0, 8);
    for (int i = 0; i < n && nop < NOP - 2 && !crashed; i++) {
        struct set s = now;
        switch (W(7)) {
        case 0: s.level = (int)W(6); op_begin(s, 0); mcp_log_set_level((mcp_log_level_t)s.level); op_end(); CHECK((int)mcp_log_get_level() == s.level, "level", "the level set is not the level read"); break;
        case 1: s.json = !s.json; op_begin(s, 0); mcp_log_set_format(s.json ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT); op_end(); break;
        case 2: s.quiet = !s.quiet; op_begin(s, 0); mcp_log_set_quiet(s.quiet); op_end(); break;
        case 3: mcp_log_set_color(W(2)); break;
        case 4: s.file = -1; op_begin(s, 1); mcp_log_close(); op_end(); break;
        default: {
            s.file = (int)W(3); s.level = (int)W(4);
            op_begin(s, 1);
            /* until it is known whether the file could be opened, the settings may be either */
            int r = mcp_log_init(path[s.file], (mcp_log_level_t)s.level);
            CHECK(r == 0 || full, "init", "the log file %s could not be opened", path[s.file]);
            if (r) O[nop - 1].is.file = -1;
            op_end();
            sim_probe("file changed while logging");
            break; }
        }
        if (W(3)) sim_sleep_ns(WR(1, 800) * MS);
    }
}
static void disk_user(void *a) {
    (void)a;
    for (int i = 0; i < 3 && !crashed; i++) {
        sim_sleep_ns(WR(1, 1500) * MS);
        full = 1; disk_capacity(WR(0, 600)); sim_probe("disk full");
        sim_sleep_ns(WR(1, 800) * MS);
        disk_capacity(~0ull >> 1); full_since = ++tick; full = 0;
    }
}
static void run_log(void) {
    sim_configure(F(DK_SPURIOUS) | F(DK_STALL) | F(DK_LEAP));
    sim_limit(4000 * SEC, 6000000);
    memset(R, 0, sizeof R); nrec = 0; nop = 0; full = 0; crashed = 0; tick = 0; full_since = 0;
    now = (struct set){(int)C(4), 0, 0, (int)C(3)};
    CHECK(mcp_log_init(path[now.file], (mcp_log_level_t)now.level) == 0, "init", "the log file could not be opened");
    if (C(2)) { mcp_log_set_format(MCP_LOG_FORMAT_JSON); now.json = 1; }
    O[0].was = O[0].is = now; O[0].t0 = ++tick; O[0].t1 = ++tick; nop = 1;
    raw = now.json && C(2);                       /* only where no record can be written as text */
    int with_full = C(4) == 1, t[NT + 2], nt = (int)CR(1, NT), k = 0;
    for (int i = 0; i < nt; i++) t[k++] = sim_spawn(writer, (void *)(long)i);
    if (!raw) t[k++] = sim_spawn(settings, 0);
    if (with_full) t[k++] = sim_spawn(disk_user, 0);
    int crash = C(3) == 1;
    if (crash) sim_sleep_ns(WR(1, 3000) * MS);
    else for (int i = 0; i < k; i++) sim_join(t[i]);
    /* a killed process leaves what was written, not what was buffered */
    crashed = 1;
    u64 end = ++tick, wend = sim_wall();
    int nfiles = 3;
    for (int f = 0; f < nfiles; f++) {
        long n = disk_get(path[f], buf, sizeof buf - 1);
        if (n < 0) continue;
        CHECK(n < (long)sizeof buf - 1, "setup", "the log is larger than expected");
        buf[n] = 0;
        int order[NT] = {-1, -1, -1, -1};
        for (char *l = buf, *e; *l; l = e + 1) {
            e = strchr(l, '\n');
            if (!e) { CHECK(crash || with_full, "torn", "the last line of %s has no end: %.100s", path[f], l); break; }
            *e = 0;
            for (int i = 0; i < nrec; i++) if (R[i].t1 == ~0ull) R[i].w1 = wend;
            int before[NREC];
            for (int i = 0; i < nrec; i++) before[i] = R[i].found;
            /* what a full disk cut off may be followed by the next record on the same line */
            if (with_full) for (char *p = l; (p = strchr(p + 1, '[')); ) if (!strncmp(p, "[20", 3) && p[5] == '-' && p[8] == '-') l = p;
            if (with_full) for (char *p = l; (p = strstr(p + 1, "{\"timestamp\":\"20")); ) l = p;
            check_line(l, f);
            for (int i = 0; i < nrec; i++) if (R[i].found && !before[i]) {
                CHECK(order[R[i].thread] < i, "out-of-order", "record %d of one thread stands after record %d", i, order[R[i].thread]);
                order[R[i].thread] = i;
            }
        }
    }
    for (int i = 0; i < nrec; i++) {
        int f;
        if (R[i].t1 == ~0ull || R[i].t1 > end) continue;
        if (must(&R[i], &f)) CHECK(R[i].found, "lost", "record %d of level %d is not in %s", i, R[i].level, path[f]);
        sim_state((u64)R[i].found << 8 | (u64)R[i].level << 4 | (u64)now.json << 1 | (u64)R[i].structured);
    }
    if (crash) for (int i = 0; i < k; i++) sim_join(t[i]);
    else mcp_log_close();
    for (int i = 0; i < nrec; i++) free(R[i].msg);
}
HARNESS(log_file, "P31", "log-file", run_log,
        "log writing, structured log writing, level, format, quiet and file switching, JSON escaping",
        "callers (threads of the harness), files and stdio, clock",
        "distinct: hash of the sequence of synchronisation operations and thread switches; non-trivial: at least one record was logged", 1)
