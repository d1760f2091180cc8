/* In-memory file system with a page cache, and stdio on top of it.
 *
 * Durable state: per inode the content as of the last fsync plus an ordered
 * list of unsynced writes; per file system an ordered journal of unsynced
 * metadata operations. Power loss keeps a prefix of the journal and an
 * arbitrary subset of the unsynced writes, possibly torn at 512-byte sectors.
 * fsync of a file makes its data and all earlier metadata durable. */
#define _GNU_SOURCE
#include "core.h"
#include "io.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

typedef struct { u64 off; u32 len; u8 *data; } pend_t;
typedef struct ino {
    int id, is_dir;
    u8 *data; size_t size, cap;          /* what running processes see */
    u8 *dur; size_t dsize;               /* what survives for sure */
    pend_t *pend; int npend, cappend;
    u64 mtime;
} ino_t_;
typedef struct { char name[256]; ino_t_ *ino; } dent_t;
enum { J_LINK = 1, J_UNLINK, J_RENAME, J_TRUNC };
typedef struct { int op; char a[256], b[256]; ino_t_ *ino; u64 size; } jop_t;

#define MAXENT 512
static dent_t ent[MAXENT]; static int nent;       /* current names */
static dent_t dent[MAXENT]; static int ndent;     /* durable names */
static jop_t *jr; static int njr, capjr;
static u64 capacity = NEVER, used;
static int inos;

typedef struct { ino_t_ *ino; u64 pos; int flags; } of_t;

static ino_t_ *lookup(const char *p) { for (int i = 0; i < nent; i++) if (!strcmp(ent[i].name, p)) return ent[i].ino; return 0; }
static void norm(const char *p, char *o) {
    size_t n = 0;
    while (*p && n < 255) {
        if (*p == '/' && n && o[n - 1] == '/') { p++; continue; }
        if (p[0] == '.' && p[1] == '/' && (n == 0 || o[n - 1] == '/')) { p += 2; continue; }
        o[n++] = *p++;
    }
    while (n > 1 && o[n - 1] == '/') n--;
    o[n] = 0;
}
static void jadd(int op, const char *a, const char *b, ino_t_ *i, u64 size) {
    if (njr == capjr) { capjr = capjr ? capjr * 2 : 32; jr = realloc(jr, sizeof *jr * (size_t)capjr); }
    jop_t *j = &jr[njr++];
    memset(j, 0, sizeof *j);
    j->op = op; j->ino = i; j->size = size;
    if (a) snprintf(j->a, 256, "%s", a);
    if (b) snprintf(j->b, 256, "%s", b);
}
static void tab_set(dent_t *t, int *n, const char *name, ino_t_ *i) {
    for (int k = 0; k < *n; k++) if (!strcmp(t[k].name, name)) { t[k].ino = i; return; }
    if (*n >= MAXENT) sim_inconclusive("simulated disk: too many names");
    snprintf(t[*n].name, 256, "%s", name);
    t[(*n)++].ino = i;
}
static void tab_del(dent_t *t, int *n, const char *name) {
    for (int k = 0; k < *n; k++) if (!strcmp(t[k].name, name)) { t[k] = t[--*n]; return; }
}
static ino_t_ *tab_get(dent_t *t, int n, const char *name) { for (int k = 0; k < n; k++) if (!strcmp(t[k].name, name)) return t[k].ino; return 0; }
static void dur_write(ino_t_ *i, u64 off, const u8 *p, u64 n) {
    if (!n) return;
    if (off + n > i->dsize) { i->dur = realloc(i->dur, off + n); memset(i->dur + i->dsize, 0, off + n - i->dsize); i->dsize = off + n; }
    memcpy(i->dur + off, p, n);
}
static void japply(jop_t *j) {
    switch (j->op) {
    case J_LINK: tab_set(dent, &ndent, j->a, j->ino); break;
    case J_UNLINK: tab_del(dent, &ndent, j->a); break;
    case J_RENAME: { ino_t_ *x = tab_get(dent, ndent, j->a); if (!x) x = j->ino; tab_del(dent, &ndent, j->a); tab_set(dent, &ndent, j->b, x); break; }
    case J_TRUNC: if (j->size < j->ino->dsize) j->ino->dsize = j->size; break;
    }
}
static void commit_meta(void) { for (int i = 0; i < njr; i++) japply(&jr[i]); njr = 0; }
static void sync_ino(ino_t_ *i) {
    commit_meta();
    free(i->dur);
    i->dur = malloc(i->size + 1);
    memcpy(i->dur, i->data, i->size);
    i->dsize = i->size;
    for (int k = 0; k < i->npend; k++) free(i->pend[k].data);
    i->npend = 0;
}
static ino_t_ *ino_new(int dir) { ino_t_ *i = calloc(1, sizeof *i); i->id = ++inos; i->is_dir = dir; i->mtime = sim_wall(); return i; }
void disk_init(void) { nent = ndent = njr = 0; ino_t_ *d = ino_new(1); tab_set(ent, &nent, "/", d); tab_set(dent, &ndent, "/", d); tab_set(ent, &nent, ".", d); tab_set(dent, &ndent, ".", d); tab_set(ent, &nent, "/tmp", d); tab_set(dent, &ndent, "/tmp", d); }
void disk_capacity(u64 b) { capacity = b; }

static int parent_ok(const char *p) {
    char b[256];
    snprintf(b, sizeof b, "%s", p);
    char *s = strrchr(b, '/');
    if (!s) return 1;
    if (s == b) return 1;
    *s = 0;
    ino_t_ *i = lookup(b);
    return i && i->is_dir;
}

/* ---- power loss and crashes ---- */
static int nfiles_open;
void disk_forget_process(void);
void disk_power_loss(void) {
    sim_count_fault(DK_POWER);
    int keep = njr ? (int)(njr - (int)sim_choose(DK_LOSE, (u32)njr + 1)) : 0;
    for (int i = 0; i < keep; i++) japply(&jr[i]);
    /* inodes reachable from durable names */
    for (int k = 0; k < ndent; k++) {
        ino_t_ *i = dent[k].ino;
        if (i->is_dir) continue;
        for (int p = 0; p < i->npend; p++) {
            pend_t *w = &i->pend[p];
            u32 v = sim_choose(DK_LOSE, 4); /* 0 kept 1 lost 2 torn head kept 3 torn tail kept */
            if (v == 0) dur_write(i, w->off, w->data, w->len);
            else if (v >= 2) {
                u32 nsec = (u32)((w->off + w->len + 511) / 512 - w->off / 512);
                u32 s = nsec > 1 ? sim_choose(DK_LOSE, nsec) : 0;
                u64 cut = (w->off / 512 + s) * 512;
                if (cut < w->off) cut = w->off;
                if (v == 2) dur_write(i, w->off, w->data, cut - w->off);
                else if (cut < w->off + w->len) dur_write(i, cut, w->data + (cut - w->off), w->off + w->len - cut);
            }
        }
        for (int p = 0; p < i->npend; p++) free(i->pend[p].data);
        i->npend = 0;
        free(i->data);
        i->data = malloc(i->dsize + 1);
        memcpy(i->data, i->dur, i->dsize);
        i->size = i->cap = i->dsize;
    }
    njr = 0;
    memcpy(ent, dent, sizeof dent);
    nent = ndent;
    used = 0;
    for (int k = 0; k < nent; k++) used += ent[k].ino->size;
    disk_forget_process();
}
void disk_process_crash(void) { sim_count_fault(DK_CRASH); disk_forget_process(); }
static void maybe_crash(void);

/* ---- system calls on files ---- */
static void recount(void) { used = 0; for (int k = 0; k < nent; k++) used += ent[k].ino->size; }
static int meta_fault(void) {
    maybe_crash();
    u32 v = sim_fault_n(DK_DISK_META, 3);
    if (v) { errno = v == 1 ? EIO : v == 2 ? EMFILE : ENOSPC; return 1; }
    return 0;
}
u64 data_rnd(void);
#define SYS() do { sim_point(OP_SYS, 0); sim_cost(2000); } while (0)

int sim_open(const char *path, int flags, ...) {
    char p[256];
    SYS();
    sim_check_range(path, strlen(path) + 1, 0, "open");
    norm(path, p);
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) { if (meta_fault()) return -1; return fd_alloc(K_URANDOM, 0); }
    if (meta_fault()) return -1;
    ino_t_ *i = lookup(p);
    if (i && i->is_dir) { if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } of_t *o = calloc(1, sizeof *o); o->ino = i; o->flags = flags; return fd_alloc(K_FILE, o); }
    if (!i) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!parent_ok(p)) { errno = ENOENT; return -1; }
        i = ino_new(0);
        tab_set(ent, &nent, p, i);
        jadd(J_LINK, p, 0, i, 0);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && i->size) {
        i->size = 0;
        for (int k = 0; k < i->npend; k++) free(i->pend[k].data);
        i->npend = 0;
        jadd(J_TRUNC, p, 0, i, 0);
        recount();
    }
    of_t *o = calloc(1, sizeof *o);
    o->ino = i; o->flags = flags;
    nfiles_open++;
    int fd = fd_alloc(K_FILE, o);
    sim_hash(0x700 + (u64)fd);
    return fd;
}
int sim_creat(const char *p, unsigned m) { (void)m; return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
static long std_in_read(void *p, size_t n);
static long std_out_write(const void *p, size_t n);
long disk_read(int fd, void *b, size_t n) {
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    if (e->kind == K_URANDOM) {
        u32 v = sim_fault_n(DK_DISK_READ, 2);
        if (v == 1) { errno = EIO; return -1; }
        if (v == 2 && n > 1) n = n / 2;
        for (size_t k = 0; k < n; k++) ((u8 *)b)[k] = (u8)data_rnd();
        return (long)n;
    }
    if (e->kind == K_STD && fd == 0) return std_in_read(b, n);
    if (e->kind != K_FILE) { errno = EBADF; return -1; }
    u32 v = sim_fault_n(DK_DISK_READ, 2);
    if (v == 1) { errno = EIO; return -1; }
    of_t *o = e->obj;
    size_t av = o->pos < o->ino->size ? o->ino->size - o->pos : 0;
    if (n > av) n = av;
    if (v == 2 && n > 1) n = n / 2;
    memcpy(b, o->ino->data + o->pos, n);
    o->pos += n;
    return (long)n;
}
long disk_write(int fd, const void *b, size_t n) {
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    if (e->kind == K_STD) return fd == 1 ? std_out_write(b, n) : (long)n;
    if (e->kind != K_FILE || (((of_t *)e->obj)->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    maybe_crash();
    of_t *o = e->obj;
    u32 v = sim_fault_n(DK_DISK_WRITE, 3);
    if (v == 1) { errno = EIO; return -1; }
    if (v >= 2 && n > 1) n = v == 2 ? n / 2 : 1;
    if (sim_fault(DK_DISK_FULL)) { errno = ENOSPC; return -1; }
    if (o->flags & O_APPEND) o->pos = o->ino->size;
    ino_t_ *i = o->ino;
    u64 end = o->pos + n;
    if (end > i->size) {
        u64 grow = end - i->size;
        if (used + grow > capacity) {
            sim_count_fault(DK_DISK_FULL);
            u64 room = capacity > used ? capacity - used : 0;
            if (i->size + room <= o->pos) { errno = ENOSPC; return -1; }
            n = (size_t)(i->size + room - o->pos);
            end = o->pos + n;
        }
    }
    if (end > i->cap) { i->cap = end * 2 + 64; i->data = realloc(i->data, i->cap); }
    if (o->pos > i->size) memset(i->data + i->size, 0, o->pos - i->size);
    memcpy(i->data + o->pos, b, n);
    if (end > i->size) { used += end - i->size; i->size = end; }
    i->mtime = sim_wall();
    if (i->npend == i->cappend) { i->cappend = i->cappend ? i->cappend * 2 : 8; i->pend = realloc(i->pend, sizeof *i->pend * (size_t)i->cappend); }
    pend_t *w = &i->pend[i->npend++];
    w->off = o->pos; w->len = (u32)n; w->data = malloc(n + 1);
    memcpy(w->data, b, n);
    o->pos += n;
    sim_hash(0x800 + n);
    return (long)n;
}
int disk_close(int fd) {
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    if (e->kind == K_FILE) { free(e->obj); nfiles_open--; }
    e->kind = K_NONE; e->obj = 0;
    return 0;
}
int sim_fsync(int fd) {
    SYS();
    maybe_crash();
    fdent_t *e = fd_get(fd);
    if (!e || e->kind != K_FILE) return -1;
    if (sim_fault(DK_DISK_WRITE)) { errno = EIO; return -1; }
    sim_cost(1 * MS);
    ino_t_ *i = ((of_t *)e->obj)->ino;
    if (i->is_dir) commit_meta(); else sync_ino(i);
    return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) { SYS(); for (int k = 0; k < nent; k++) if (!ent[k].ino->is_dir) sync_ino(ent[k].ino); }
long sim_lseek(int fd, long off, int wh) {
    fdent_t *e = fd_get(fd);
    if (!e || e->kind != K_FILE) { errno = EBADF; return -1; }
    of_t *o = e->obj;
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->pos : (i64)o->ino->size;
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->pos = (u64)(b + off);
    return (long)o->pos;
}
int sim_ftruncate(int fd, long n) {
    SYS();
    maybe_crash();
    fdent_t *e = fd_get(fd);
    if (!e || e->kind != K_FILE) { errno = EBADF; return -1; }
    of_t *o = e->obj;
    if ((u64)n < o->ino->size) { o->ino->size = (size_t)n; jadd(J_TRUNC, 0, 0, o->ino, (u64)n); recount(); }
    return 0;
}
int sim_unlink(const char *path) {
    char p[256];
    SYS();
    sim_check_range(path, strlen(path) + 1, 0, "unlink");
    norm(path, p);
    if (meta_fault()) return -1;
    ino_t_ *i = lookup(p);
    if (!i) { errno = ENOENT; return -1; }
    if (i->is_dir) { errno = EISDIR; return -1; }
    tab_del(ent, &nent, p);
    jadd(J_UNLINK, p, 0, i, 0);
    recount();
    sim_hash(0x900);
    return 0;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rmdir(const char *p) { (void)p; errno = ENOTEMPTY; return -1; }
int sim_rename(const char *a0, const char *b0) {
    char a[256], b[256];
    SYS();
    sim_check_range(a0, strlen(a0) + 1, 0, "rename");
    sim_check_range(b0, strlen(b0) + 1, 0, "rename");
    norm(a0, a);
    norm(b0, b);
    if (meta_fault()) return -1;
    ino_t_ *i = lookup(a);
    if (!i) { errno = ENOENT; return -1; }
    if (!parent_ok(b)) { errno = ENOENT; return -1; }
    tab_del(ent, &nent, a);
    tab_set(ent, &nent, b, i);
    jadd(J_RENAME, a, b, i, 0);
    recount();
    return 0;
}
int sim_mkdir(const char *path, unsigned m) {
    char p[256];
    (void)m;
    SYS();
    sim_check_range(path, strlen(path) + 1, 0, "mkdir");
    norm(path, p);
    if (meta_fault()) return -1;
    if (lookup(p)) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    ino_t_ *i = ino_new(1);
    tab_set(ent, &nent, p, i);
    jadd(J_LINK, p, 0, i, 0);
    return 0;
}
int sim_access_path(const char *path, int m) {
    char p[256];
    (void)m;
    SYS();
    norm(path, p);
    if (lookup(p)) return 0;
    errno = ENOENT;
    return -1;
}
int sim_stat(const char *path, struct stat *st) {
    char p[256];
    SYS();
    norm(path, p);
    ino_t_ *i = lookup(p);
    if (!i) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = i->is_dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (long)i->size;
    st->st_mtime = (time_t)(i->mtime / SEC);
    return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
    fdent_t *e = fd_get(fd);
    if (!e) return -1;
    memset(st, 0, sizeof *st);
    if (e->kind == K_FILE) { of_t *o = e->obj; st->st_mode = S_IFREG | 0644; st->st_size = (long)o->ino->size; }
    return 0;
}
typedef struct { char names[MAXENT][128]; int n, i; struct dirent d; } sdir_t;
void *sim_opendir(const char *path) {
    char p[256];
    SYS();
    norm(path, p);
    if (meta_fault()) return 0;
    ino_t_ *d = lookup(p);
    if (!d || !d->is_dir) { errno = ENOENT; return 0; }
    sdir_t *s = calloc(1, sizeof *s);
    size_t l = strlen(p);
    snprintf(s->names[s->n++], 128, ".");
    snprintf(s->names[s->n++], 128, "..");
    for (int i = 0; i < nent && s->n < MAXENT; i++)
        if (!strncmp(ent[i].name, p, l) && ent[i].name[l] == '/' && !strchr(ent[i].name + l + 1, '/') && ent[i].name[l + 1])
            snprintf(s->names[s->n++], 128, "%.120s", ent[i].name + l + 1);
    return s;
}
struct dirent *sim_readdir(void *v) {
    sdir_t *s = v;
    sim_point(OP_SYS, 0);
    if (s->i >= s->n) return 0;
    memset(&s->d, 0, sizeof s->d);
    snprintf(s->d.d_name, sizeof s->d.d_name, "%s", s->names[s->i++]);
    s->d.d_type = DT_REG;
    return &s->d;
}
int sim_closedir(void *v) { free(v); return 0; }

int disk_exists(const char *path) { char p[256]; norm(path, p); return lookup(p) != 0; }
int disk_put(const char *path, const void *b, size_t n) {
    char p[256];
    norm(path, p);
    ino_t_ *i = lookup(p);
    if (!i) { i = ino_new(0); tab_set(ent, &nent, p, i); jadd(J_LINK, p, 0, i, 0); }
    free(i->data);
    i->data = malloc(n + 1); i->size = i->cap = n;
    memcpy(i->data, b, n);
    sync_ino(i);
    recount();
    return 0;
}
long disk_get(const char *path, void *b, size_t n) {
    char p[256];
    norm(path, p);
    ino_t_ *i = lookup(p);
    if (!i) return -1;
    if (n > i->size) n = i->size;
    memcpy(b, i->data, n);
    return (long)n;
}
int disk_list(const char *prefix, char names[][128], int max) {
    int k = 0;
    for (int i = 0; i < nent && k < max; i++) if (!strncmp(ent[i].name, prefix, strlen(prefix))) snprintf(names[k++], 128, "%.127s", ent[i].name);
    return k;
}

/* crash points: the harness arms them, any file operation may be the one */
static void (*crash_fn)(void);
void disk_on_crash(void (*fn)(void)) { crash_fn = fn; }
static void maybe_crash(void) { if (crash_fn && sim_fault(DK_CRASH)) { void (*f)(void) = crash_fn; crash_fn = 0; f(); } }

/* ------------------------------------------------------------------ stdio */
typedef struct sfile {
    int fd, kind;            /* 0 file, 1 stdin, 2 stdout, 3 stderr */
    int rd, wr, eof, err, mode, ungot;
    u8 buf[4096]; size_t n, pos;
    int owner, depth;
    int live;
} sfile_t;
static sfile_t std3[3] = {{.fd = 0, .kind = 1, .rd = 1, .mode = _IOFBF, .ungot = -1, .live = 1}, {.fd = 1, .kind = 2, .wr = 1, .mode = _IOFBF, .ungot = -1, .live = 1}, {.fd = 2, .kind = 3, .wr = 1, .mode = _IONBF, .ungot = -1, .live = 1}};
void *sim_stdin = &std3[0], *sim_stdout = &std3[1], *sim_stderr = &std3[2];
static sfile_t *ftab[64]; static int nftab;

static u8 *in_buf; static size_t in_len, in_cap; static int in_eof;
static u8 *out_buf; static size_t out_len, out_cap;
void std_in_feed(const void *p, size_t n) {
    if (in_len + n > in_cap) { in_cap = (in_len + n) * 2; in_buf = realloc(in_buf, in_cap); }
    memcpy(in_buf + in_len, p, n);
    in_len += n;
}
void std_in_eof(void) { in_eof = 1; }
size_t std_out_take(void *p, size_t n) {
    if (n > out_len) n = out_len;
    memcpy(p, out_buf, n);
    memmove(out_buf, out_buf + n, out_len - n);
    out_len -= n;
    return n;
}
static int in_ready(void *a) { (void)a; return in_len > 0 || in_eof; }
int std_in_ready(void) { return in_ready(0); }
static long std_in_read(void *p, size_t n) {
    if (!in_ready(0)) {
        if (sim_fault(DK_EINTR)) { errno = EINTR; return -1; }
        sim_block(in_ready, 0, NEVER);
    }
    size_t k = in_len < n ? in_len : n;
    if (k > 1) { u32 x = sim_fault_n(DK_SHORT_RECV, 3); if (x) k = x == 1 ? 1 : x == 2 ? k / 2 : k - 1; }
    memcpy(p, in_buf, k);
    memmove(in_buf, in_buf + k, in_len - k);
    in_len -= k;
    return (long)k;
}
static long std_out_write(const void *p, size_t k) {
    u32 v = sim_fault_n(DK_SHORT_SEND, 3);
    if (v && k > 1) k = v == 1 ? 1 : v == 2 ? k / 2 : k - 1;
    if (out_len + k > out_cap) { out_cap = (out_len + k) * 2; out_buf = realloc(out_buf, out_cap); }
    memcpy(out_buf + out_len, p, k);
    out_len += k;
    return (long)k;
}

static void flock_(sfile_t *f) {
    while (f->depth && f->owner != cur->id) sim_block(0, 0, sim_now() + 20000);
    f->owner = cur->id;
    f->depth++;
}
static void funlock_(sfile_t *f) { f->depth--; }

static int raw_flush(sfile_t *f) {
    size_t o = 0;
    while (o < f->n) {
        long r;
        if (f->kind == 3) r = (long)(f->n - o);
        else if (f->kind == 2) {
            sim_point(OP_SYS, 0);
            r = std_out_write(f->buf + o, f->n - o);
        } else { sim_point(OP_SYS, 0); sim_cost(2000); r = disk_write(f->fd, f->buf + o, f->n - o); }
        if (r < 0) {
            f->err = 1;
            memmove(f->buf, f->buf + o, f->n - o);
            f->n -= o;
            return -1;
        }
        o += (size_t)r;
    }
    f->n = 0;
    return 0;
}
static sfile_t *fget(void *v) {
    sfile_t *f = v;
    if (!f) sim_fail("null-deref", "stdio call on a null stream");
    if (f->kind == 0 && !f->live) sim_fail("use-after-free", "stdio call on a closed stream");
    return f;
}
void *sim_fopen(const char *p, const char *m) {
    int fl = m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (m[0] == 'a' ? O_APPEND : O_TRUNC);
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = sim_open(p, fl, 0644);
    if (fd < 0) return 0;
    sfile_t *f = calloc(1, sizeof *f);
    f->fd = fd; f->rd = m[0] == 'r' || strchr(m, '+') != 0; f->wr = m[0] != 'r' || strchr(m, '+') != 0;
    f->mode = _IOFBF; f->ungot = -1; f->live = 1;
    if (nftab < 64) ftab[nftab++] = f;
    return f;
}
void *sim_fdopen(int fd, const char *m) { (void)m; sfile_t *f = calloc(1, sizeof *f); f->fd = fd; f->rd = f->wr = 1; f->mode = _IOFBF; f->ungot = -1; f->live = 1; return f; }
int sim_fflush(void *v) {
    if (!v) return 0;
    sfile_t *f = fget(v);
    if (!f->wr) return 0;
    flock_(f);
    int r = raw_flush(f);
    funlock_(f);
    return r ? EOF : 0;
}
int sim_close(int fd);
int sim_fclose(void *v) {
    sfile_t *f = fget(v);
    int r = 0;
    if (f->wr && f->n) r = raw_flush(f);
    if (f->kind == 0) {
        if (sim_close(f->fd)) r = -1;
        f->live = 0;
        for (int i = 0; i < nftab; i++) if (ftab[i] == f) { ftab[i] = ftab[--nftab]; break; }
    }
    return r ? EOF : 0;
}
size_t sim_fwrite(const void *p, size_t sz, size_t cnt, void *v) {
    sfile_t *f = fget(v);
    size_t n = sz * cnt;
    sim_check_range(p, n, 0, "fwrite");
    if (!n) return 0;
    if (!f->wr) { errno = EBADF; f->err = 1; return 0; }
    sim_point(OP_SYS, 0);
    flock_(f);
    size_t o = 0;
    int nl = 0;
    while (o < n) {
        size_t room = sizeof f->buf - f->n, k = n - o < room ? n - o : room;
        memcpy(f->buf + f->n, (const u8 *)p + o, k);
        if (f->mode == _IOLBF && memchr((const u8 *)p + o, '\n', k)) nl = 1;
        f->n += k;
        o += k;
        if (f->n == sizeof f->buf && raw_flush(f)) { f->n = 0; funlock_(f); return (o - k) / sz; }
    }
    if ((f->mode == _IONBF || nl) && raw_flush(f)) { f->n = 0; funlock_(f); return 0; }
    funlock_(f);
    return cnt;
}
static long raw_fill(sfile_t *f) {
    if (f->eof && f->kind == 0) return 0;
    long r;
    if (f->kind == 1) {
        sim_point(OP_SYS, 0);
        do r = std_in_read(f->buf, sizeof f->buf); while (r < 0);
    } else { sim_point(OP_SYS, 0); r = disk_read(f->fd, f->buf, sizeof f->buf); }
    if (r < 0) { f->err = 1; return -1; }
    if (r == 0) { f->eof = 1; return 0; }
    f->pos = 0; f->n = (size_t)r;
    return r;
}
size_t sim_fread(void *p, size_t sz, size_t cnt, void *v) {
    sfile_t *f = fget(v);
    size_t n = sz * cnt, o = 0;
    sim_check_range(p, n, 1, "fread");
    if (!n) return 0;
    flock_(f);
    while (o < n) {
        if (f->ungot >= 0) { ((u8 *)p)[o++] = (u8)f->ungot; f->ungot = -1; continue; }
        if (f->pos == f->n) { f->pos = f->n = 0; if (raw_fill(f) <= 0) break; }
        size_t k = f->n - f->pos;
        if (k > n - o) k = n - o;
        memcpy((u8 *)p + o, f->buf + f->pos, k);
        f->pos += k;
        o += k;
    }
    funlock_(f);
    return o / sz;
}
int sim_fgetc(void *v) { u8 c; return sim_fread(&c, 1, 1, v) == 1 ? c : EOF; }
int sim_ungetc(int c, void *v) { ((sfile_t *)v)->ungot = c; return c; }
char *sim_fgets(char *b, int n, void *v) {
    int i = 0;
    while (i < n - 1) { int c = sim_fgetc(v); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; }
    if (!i) return 0;
    b[i] = 0;
    return b;
}
int sim_fputc(int c, void *v) { u8 b = (u8)c; return sim_fwrite(&b, 1, 1, v) == 1 ? c : EOF; }
int sim_fputs(const char *s, void *v) { size_t n = strlen(s); sim_check_range(s, n + 1, 0, "fputs"); return n == 0 || sim_fwrite(s, 1, n, v) == n ? 1 : EOF; }
int sim_puts(const char *s) { return sim_fputs(s, sim_stdout) == EOF || sim_fputc('\n', sim_stdout) == EOF ? EOF : 1; }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
void sim_fmt_check(const char *f, va_list ap);
int sim_vfprintf(void *v, const char *f, va_list ap) {
    sim_fmt_check(f, ap);
    va_list a2;
    va_copy(a2, ap);
    int n = vsnprintf(0, 0, f, a2);
    va_end(a2);
    char *b = malloc((size_t)n + 1);
    vsnprintf(b, (size_t)n + 1, f, ap);
    size_t r = n ? sim_fwrite(b, 1, (size_t)n, v) : 0;
    free(b);
    return r == (size_t)n ? n : -1;
}
int sim_fprintf(void *v, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(v, f, ap); va_end(ap); return r; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_vprintf(const char *f, va_list ap) { return sim_vfprintf(sim_stdout, f, ap); }
void sim_perror(const char *s) { (void)s; }
int sim_feof(void *v) { return fget(v)->eof; }
int sim_ferror(void *v) { return fget(v)->err; }
void sim_clearerr(void *v) { sfile_t *f = fget(v); f->eof = f->err = 0; }
int sim_fileno(void *v) { return fget(v)->fd; }
int sim_isatty(int fd) { (void)fd; return 0; }
int sim_setvbuf(void *v, char *b, int m, size_t n) { (void)b; (void)n; fget(v)->mode = m; return 0; }
void sim_setbuf(void *v, char *b) { fget(v)->mode = b ? _IOFBF : _IONBF; }
int sim_fseek(void *v, long off, int wh) {
    sfile_t *f = fget(v);
    if (f->wr && f->n && !f->rd) { if (raw_flush(f)) return -1; }
    else if (f->rd && wh == SEEK_CUR) off -= (long)(f->n - f->pos);
    f->n = f->pos = 0; f->eof = 0; f->ungot = -1;
    return sim_lseek(f->fd, off, wh) < 0 ? -1 : 0;
}
long sim_ftell(void *v) {
    sfile_t *f = fget(v);
    long p = sim_lseek(f->fd, 0, SEEK_CUR);
    return f->rd ? p - (long)(f->n - f->pos) : p + (long)f->n;
}
void sim_rewind(void *v) { sim_fseek(v, 0, SEEK_SET); ((sfile_t *)v)->err = 0; }
void sim_flockfile(void *v) { flock_(fget(v)); }
void sim_funlockfile(void *v) { funlock_(fget(v)); }
long sim_getline(char **l, size_t *n, void *v) {
    size_t o = 0;
    for (;;) {
        int c = sim_fgetc(v);
        if (c == EOF) break;
        if (!*l || o + 2 > *n) { *n = (o + 2) * 2; *l = simh_realloc(*l, *n); }
        (*l)[o++] = (char)c;
        if (c == '\n') break;
    }
    if (!o) return -1;
    (*l)[o] = 0;
    return (long)o;
}
/* the process died: its descriptors and stdio buffers are gone */
void disk_forget_process(void) {
    for (int i = 0; i < nftab; i++) { ftab[i]->n = 0; ftab[i]->live = 0; }
    nftab = 0;
    for (int fd = 3; fd < MAXFD; fd++) { fdent_t *e = fd_get(fd); if (e && (e->kind == K_FILE || e->kind == K_URANDOM)) { e->kind = K_NONE; } }
}
