/* Shared pieces of the drivers: framed requests on stdin, framed replies on stdout. */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include "config.h"
#undef NDEBUG
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <malloc.h>
#include <talloc.h>
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#define HANDLEBARS_COMPILER_PRIVATE
#define HANDLEBARS_OPCODES_PRIVATE
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_value_private.h"
#include "handlebars_value_handlers.h"
#include "handlebars_vm_private.h"
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
#include "handlebars_closure.h"
#include "handlebars_compiler.h"
#include "handlebars_delimiters.h"
#include "handlebars_helpers.h"
#include "handlebars_json.h"
#include "handlebars_yaml.h"
#include "handlebars_map.h"
#include "handlebars_parser.h"
#include "handlebars_parser_private.h"
#include "handlebars_token.h"
#include "handlebars_ast.h"
#include "handlebars_ast_printer.h"
#include "handlebars_ptr.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_module_printer.h"
#include "handlebars_partial_loader.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_vm.h"

#define MAXARGS 512
struct req { int n; char * p[MAXARGS]; uint32_t l[MAXARGS]; char * raw; };
struct buf { char * p; size_t n, cap; };

static void die(const char * m) { fprintf(stderr, "DRIVER-ERROR: %s\n", m); fflush(stderr); _exit(97); }

static void bput(struct buf * b, const void * p, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); if (!b->p) die("oom"); }
    memcpy(b->p + b->n, p, n); b->n += n; b->p[b->n] = 0;
}
static void bstr(struct buf * b, const char * s) { bput(b, s, strlen(s)); }
static void bfmt(struct buf * b, const char * f, ...) {
    char t[512]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); bstr(b, t);
}

static void rdall(void * p, size_t n) {
    char * c = p;
    while (n) { ssize_t r = read(0, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) exit(0); c += r; n -= r; }
}
static void wrall(const void * p, size_t n) {
    const char * c = p;
    while (n) { ssize_t r = write(3, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) exit(0); c += r; n -= r; }
}
static void parsereq(struct req * r, const char * raw, uint32_t total) {
    uint32_t off = 0; r->n = 0;
    while (off < total) {
        uint32_t l; memcpy(&l, raw + off, 4); off += 4;
        if (r->n >= MAXARGS) die("too many args");
        /* every argument gets its own exact-size allocation, so reads past the end are seen */
        char * c = malloc(l ? l : 1); memcpy(c, raw + off, l);
        r->p[r->n] = c; r->l[r->n] = l; r->n++; off += l;
    }
}
static void rdreq(struct req * r) {
    uint32_t total; rdall(&total, 4);
    char * raw = malloc(total + 1); rdall(raw, total);
    parsereq(r, raw, total); free(raw);
}
static void freereq(struct req * r) { for (int i = 0; i < r->n; i++) free(r->p[i]); }

/* replies: list of byte strings */
static __thread struct buf reply;
static void rep(const void * p, size_t n) { uint32_t l = n; bput(&reply, &l, 4); bput(&reply, p, n); }
static void reps(const char * s) { rep(s ? s : "", s ? strlen(s) : 0); }
static void repn(long v) { char t[32]; snprintf(t, 32, "%ld", v); reps(t); }
static void sendreply(void) { uint32_t l = reply.n; wrall(&l, 4); wrall(reply.p, reply.n); reply.n = 0; }

static int rq_eq(struct req * r, int i, const char * s) { return i < r->n && r->l[i] == strlen(s) && !memcmp(r->p[i], s, r->l[i]); }
static long rq_num(struct req * r, int i) { char t[40]; size_t n = r->l[i] < 39 ? r->l[i] : 39; memcpy(t, r->p[i], n); t[n] = 0; return strtol(t, NULL, 0); }
static char * rq_cstr(struct req * r, int i) { char * t = malloc(r->l[i] + 1); memcpy(t, r->p[i], r->l[i]); t[r->l[i]] = 0; return t; }

/* value wire format: N T F I<n>; D<f>; S<len>:<bytes> (s = safe) [..] {S<len>:..v..} L<name>; */
typedef struct handlebars_value * (*hfn)(HANDLEBARS_HELPER_ARGS);
static hfn find_impl(const char * n, size_t l);
static const char * impl_name(hfn f);

static const char * decv(struct handlebars_context * ctx, const char * p, const char * e, struct handlebars_value * v) {
    if (p >= e) die("short value");
    char c = *p++;
    switch (c) {
    case 'N': handlebars_value_null(v); return p;
    case 'T': handlebars_value_boolean(v, true); return p;
    case 'F': handlebars_value_boolean(v, false); return p;
    case 'I': { char t[40]; int i = 0; while (*p != ';') t[i++] = *p++; t[i] = 0; handlebars_value_integer(v, strtol(t, NULL, 10)); return p + 1; }
    case 'D': { char t[64]; int i = 0; while (*p != ';') t[i++] = *p++; t[i] = 0; handlebars_value_float(v, strtod(t, NULL)); return p + 1; }
    case 'L': { const char * s = p; while (*p != ';') p++; hfn f = find_impl(s, p - s); if (!f) die("unknown impl"); handlebars_value_helper(v, f); return p + 1; }
    case 'S': case 's': { size_t n = 0; while (*p != ':') n = n * 10 + (*p++ - '0'); p++;
        struct handlebars_string * s = handlebars_string_ctor(ctx, p, n); handlebars_value_str(v, s);
        if (c == 's') handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
        return p + n; }
    case '[': {
        struct handlebars_stack * st = handlebars_stack_ctor(ctx, 2);
        while (*p != ']') {
            HANDLEBARS_VALUE_DECL(ch); p = decv(ctx, p, e, ch); st = handlebars_stack_push(st, ch); HANDLEBARS_VALUE_UNDECL(ch);
        }
        handlebars_value_array(v, st); return p + 1; }
    case '{': {
        struct handlebars_map * m = handlebars_map_ctor(ctx, 0);
        while (*p != '}') {
            if (*p != 'S') die("map key"); p++;
            size_t n = 0; while (*p != ':') n = n * 10 + (*p++ - '0'); p++;
            const char * k = p; p += n;
            HANDLEBARS_VALUE_DECL(ch); p = decv(ctx, p, e, ch);
            struct handlebars_string * ks = handlebars_string_ctor(ctx, k, n);
            m = handlebars_map_update(m, ks, ch);
            HANDLEBARS_VALUE_UNDECL(ch);
        }
        handlebars_value_map(v, m); return p + 1; }
    }
    die("bad value"); return NULL;
}

static void encv(struct buf * b, struct handlebars_value * v, int depth) {
    if (!v) { bstr(b, "0"); return; }
    if (depth > 100) { bstr(b, "~"); return; }
    switch (handlebars_value_get_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: bstr(b, "N"); break;
    case HANDLEBARS_VALUE_TYPE_TRUE: bstr(b, "T"); break;
    case HANDLEBARS_VALUE_TYPE_FALSE: bstr(b, "F"); break;
    case HANDLEBARS_VALUE_TYPE_INTEGER: bfmt(b, "I%ld;", handlebars_value_get_intval(v)); break;
    case HANDLEBARS_VALUE_TYPE_FLOAT: bfmt(b, "D%.17g;", handlebars_value_get_floatval(v)); break;
    case HANDLEBARS_VALUE_TYPE_STRING:
        bfmt(b, "%c%zu:", (handlebars_value_get_flags(v) & HANDLEBARS_VALUE_FLAG_SAFE_STRING) ? 's' : 'S', handlebars_value_get_strlen(v));
        bput(b, handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); break;
    case HANDLEBARS_VALUE_TYPE_ARRAY: {
        bstr(b, "[");
        HANDLEBARS_VALUE_FOREACH(v, ch) { encv(b, ch, depth + 1); } HANDLEBARS_VALUE_FOREACH_END();
        bstr(b, "]"); break; }
    case HANDLEBARS_VALUE_TYPE_MAP: {
        bstr(b, "{");
        HANDLEBARS_VALUE_FOREACH_KV(v, k, ch) {
            bfmt(b, "S%zu:", hbs_str_len(k)); bput(b, hbs_str_val(k), hbs_str_len(k)); encv(b, ch, depth + 1);
        } HANDLEBARS_VALUE_FOREACH_END();
        bstr(b, "}"); break; }
    case HANDLEBARS_VALUE_TYPE_HELPER: { const char * n = impl_name((hfn) v->v.helper); bfmt(b, "L%s;", n ? n : "?"); break; }
    default: bfmt(b, "?%d;", (int) handlebars_value_get_type(v));
    }
}
#endif
