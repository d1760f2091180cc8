/* A small JSON reader of the harnesses' own, so that nothing the server or the
 * client writes is judged by the repository's parser. */
#ifndef JMINI_H
#define JMINI_H
#include <stdlib.h>
#include <string.h>
typedef struct J { char t; /* n b d s a o */ int b, cnt, cap; double n; char *s; struct J **v; char **k; } J;
static J *j_value(const char **p, int depth);
static void j_ws(const char **p) { while (**p == ' ' || **p == '\t' || **p == '\n' || **p == '\r') ++*p; }
static char *j_str(const char **p) {
    if (**p != '"') return 0;
    const char *q = ++*p;
    while (*q && *q != '"') q += *q == '\\' && q[1] ? 2 : 1;
    if (!*q) return 0;
    char *s = malloc((size_t)(q - *p) * 3 + 1), *o = s;
    for (const char *c = *p; c < q; c++) {
        if ((unsigned char)*c < 32) { free(s); return 0; }
        if (*c != '\\') { *o++ = *c; continue; }
        switch (*++c) {
        case 'n': *o++ = '\n'; break; case 't': *o++ = '\t'; break; case 'r': *o++ = '\r'; break;
        case 'b': *o++ = '\b'; break; case 'f': *o++ = '\f'; break;
        case 'u': {
            unsigned v = 0;
            for (int i = 1; i <= 4; i++) { char h = c[i]; if (!strchr("0123456789abcdefABCDEF", h) || !h) { free(s); return 0; } v = v * 16 + (unsigned)(h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
            c += 4;
            if (v < 0x80) *o++ = (char)v;
            else if (v < 0x800) { *o++ = (char)(0xC0 | v >> 6); *o++ = (char)(0x80 | (v & 63)); }
            else { *o++ = (char)(0xE0 | v >> 12); *o++ = (char)(0x80 | (v >> 6 & 63)); *o++ = (char)(0x80 | (v & 63)); }
            break; }
        case '"': case '\\': case '/': *o++ = *c; break;
        default: free(s); return 0;
        }
    }
    *o = 0;
    *p = q + 1;
    return s;
}
static J *j_new(char t) { J *j = calloc(1, sizeof *j); j->t = t; return j; }
static void j_free(J *j) {
    if (!j) return;
    for (int i = 0; i < j->cnt; i++) { j_free(j->v[i]); if (j->k) free(j->k[i]); }
    free(j->v); free(j->k); free(j->s); free(j);
}
static void j_add(J *j, char *k, J *v) {
    if (j->cnt == j->cap) { j->cap = j->cap ? j->cap * 2 : 8; j->v = realloc(j->v, sizeof *j->v * (size_t)j->cap); j->k = realloc(j->k, sizeof *j->k * (size_t)j->cap); }
    j->k[j->cnt] = k; j->v[j->cnt++] = v;
}
static J *j_value(const char **p, int depth) {
    j_ws(p);
    if (depth > 40) return 0;
    if (**p == '{' || **p == '[') {
        char c = **p, e = c == '{' ? '}' : ']';
        J *j = j_new(c == '{' ? 'o' : 'a');
        ++*p; j_ws(p);
        if (**p == e) { ++*p; return j; }
        for (;;) {
            char *k = 0;
            j_ws(p);
            if (c == '{') { k = j_str(p); j_ws(p); if (!k || **p != ':') { free(k); j_free(j); return 0; } ++*p; }
            J *v = j_value(p, depth + 1);
            if (!v) { free(k); j_free(j); return 0; }
            j_add(j, k, v);
            j_ws(p);
            if (**p == e) { ++*p; return j; }
            if (**p != ',') { j_free(j); return 0; }
            ++*p;
        }
    }
    if (**p == '"') { char *s = j_str(p); if (!s) return 0; J *j = j_new('s'); j->s = s; return j; }
    if (!strncmp(*p, "true", 4)) { *p += 4; J *j = j_new('b'); j->b = 1; return j; }
    if (!strncmp(*p, "false", 5)) { *p += 5; return j_new('b'); }
    if (!strncmp(*p, "null", 4)) { *p += 4; return j_new('n'); }
    if (**p == '-' || (**p >= '0' && **p <= '9')) { char *e; double d = strtod(*p, &e); if (e == *p) return 0; *p = e; J *j = j_new('d'); j->n = d; return j; }
    return 0;
}
/* the whole text must be one value */
static J *j_parse(const char *s) {
    const char *p = s;
    J *j = j_value(&p, 0);
    j_ws(&p);
    if (j && *p) { j_free(j); return 0; }
    return j;
}
static J *j_get(J *j, const char *k) {
    if (!j || j->t != 'o') return 0;
    for (int i = 0; i < j->cnt; i++) if (!strcmp(j->k[i], k)) return j->v[i];
    return 0;
}
static const char *j_gets(J *j, const char *k) { J *v = j_get(j, k); return v && v->t == 's' ? v->s : 0; }
#endif
