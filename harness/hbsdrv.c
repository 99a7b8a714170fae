#include "drv.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_LSAN 1
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif
#endif

/* ---- the clock: the real one, or whatever was asked for ------------------------------------ */
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <lmdb.h>
#include <pthread.h>
#include "handlebars_vm_private.h"
static long clock_now = -1;
time_t __real_time(time_t * t); int __real_clock_gettime(clockid_t c, struct timespec * ts); int __real_gettimeofday(struct timeval * tv, void * tz); int __real_usleep(useconds_t us);
time_t __wrap_time(time_t * t) { if (clock_now < 0) return __real_time(t); if (t) *t = clock_now; return clock_now; }
int __wrap_clock_gettime(clockid_t c, struct timespec * ts) { int rc = __real_clock_gettime(c, ts); if (clock_now >= 0 && c == CLOCK_REALTIME && rc == 0) { ts->tv_sec = clock_now; ts->tv_nsec = 0; } return rc; }
int __wrap_gettimeofday(struct timeval * tv, void * tz) { int rc = __real_gettimeofday(tv, tz); if (clock_now >= 0 && rc == 0) { tv->tv_sec = clock_now; tv->tv_usec = 0; } return rc; }
int __wrap_usleep(useconds_t us) { return clock_now < 0 ? __real_usleep(us) : 0; }

/* ---- events seen by the test helpers / logger -------------------------------------------- */
static __thread struct buf events;
static __thread int nevents;
static __thread char * impl_err;

#define ARG(i) (&argv[i])
#define HCTX HBSCTX(vm)
#define H(name) static struct handlebars_value * h_##name(int argc, struct handlebars_value * argv, struct handlebars_options * options, struct handlebars_vm * vm, struct handlebars_value * rv)

static void describe(struct buf * b, int argc, struct handlebars_value * argv, struct handlebars_options * options)
{
    bfmt(b, "%d|", argc);
    for (int i = 0; i < argc; i++) encv(b, ARG(i), 0);
    bstr(b, "|"); encv(b, options->hash, 0);
    bfmt(b, "|%d%d", options->program >= 0, options->inverse >= 0);
    bstr(b, "|");
    if (options->scope) encv(b, options->scope, 0);
}
static void ev(const char * name, int argc, struct handlebars_value * argv, struct handlebars_options * options)
{
    nevents++;
    bstr(&events, name); bstr(&events, "("); describe(&events, argc, argv, options); bstr(&events, ")\n");
}
static struct handlebars_value * retstr(struct handlebars_vm * vm, struct handlebars_value * rv, const char * p, size_t n)
{
    handlebars_value_str(rv, handlebars_string_ctor(HCTX, p, n));
    return rv;
}
static void strof(struct buf * b, struct handlebars_vm * vm, struct handlebars_value * v)
{
    struct handlebars_string * s = handlebars_value_to_string(v, HCTX);
    bput(b, hbs_str_val(s), hbs_str_len(s));
    handlebars_string_delref(s);
}

H(enc) { struct buf b = {0}; ev("enc", argc, argv, options); describe(&b, argc, argv, options); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(safe) { struct buf b = {0}; bstr(&b, ""); if (argc) strof(&b, vm, ARG(0)); retstr(vm, rv, b.p, b.n); free(b.p); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv; }
H(id) { if (argc) handlebars_value_value(rv, ARG(0)); return rv; }
H(null) { return rv; }
H(cat) { struct buf b = {0}; bstr(&b, ""); for (int i = 0; i < argc; i++) strof(&b, vm, ARG(i)); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(add) { long t = 0; for (int i = 0; i < argc; i++) t += handlebars_value_get_intval(ARG(i)); handlebars_value_integer(rv, t); return rv; }
H(scope) { struct buf b = {0}; encv(&b, options->scope, 0); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(list) { struct handlebars_stack * s = handlebars_stack_ctor(HCTX, 1); for (int i = 0; i < argc; i++) s = handlebars_stack_push(s, ARG(i)); handlebars_value_array(rv, s); return rv; }
H(hash) { if (options->hash) handlebars_value_value(rv, options->hash); return rv; }
H(data) { struct buf b = {0}; encv(&b, options->data, 0); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(name) { if (options->name) handlebars_value_str(rv, options->name); return rv; }
static struct handlebars_value * wrapped(struct handlebars_vm * vm, struct handlebars_value * rv, const char * a, struct handlebars_string * s, const char * z)
{
    struct buf b = {0}; bstr(&b, a); if (s) { bput(&b, hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); } bstr(&b, z);
    retstr(vm, rv, b.p, b.n); free(b.p); return rv;
}
H(blk) { ev("blk", argc, argv, options); return wrapped(vm, rv, "<", handlebars_vm_execute_program(vm, options->program, options->scope), ">"); }
H(inv) { ev("inv", argc, argv, options); return wrapped(vm, rv, "!", handlebars_vm_execute_program(vm, options->inverse, options->scope), "!"); }
H(ctx) { if (!argc) return rv; return wrapped(vm, rv, "", handlebars_vm_execute_program(vm, options->program, ARG(0)), ""); }
H(rep) { /* the block may throw, so what is collected belongs to the vm */
    long n = argc ? handlebars_value_get_intval(ARG(0)) : 0; struct handlebars_string * all = handlebars_string_init(HCTX, 0);
    for (long i = 0; i < n && i < 20; i++) { struct handlebars_string * s = handlebars_vm_execute_program(vm, options->program, options->scope); all = handlebars_string_append(HCTX, all, HBS_STR_STRL(s)); handlebars_string_delref(s); }
    handlebars_value_str(rv, all); return rv;
}
H(bp) {
    HANDLEBARS_VALUE_DECL(bps);
    struct handlebars_stack * st = handlebars_stack_ctor(HCTX, 2);
    for (int i = 0; i < argc; i++) st = handlebars_stack_push(st, ARG(i));
    handlebars_value_array(bps, st);
    struct handlebars_string * s = handlebars_vm_execute_program_ex(vm, options->program, options->scope, options->data, bps);
    wrapped(vm, rv, "", s, "");
    HANDLEBARS_VALUE_UNDECL(bps);
    return rv;
}
H(frame) {
    HANDLEBARS_VALUE_DECL(d);
    struct handlebars_map * m = handlebars_map_ctor(HCTX, 8);
    if (options->data && handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP) {
        HANDLEBARS_VALUE_FOREACH_KV(options->data, k, ch) { m = handlebars_map_update(m, k, ch); } HANDLEBARS_VALUE_FOREACH_END();
    }
    if (options->hash && handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP) {
        HANDLEBARS_VALUE_FOREACH_KV(options->hash, k, ch) { m = handlebars_map_update(m, k, ch); } HANDLEBARS_VALUE_FOREACH_END();
    }
    handlebars_value_map(d, m);
    struct handlebars_string * s = handlebars_vm_execute_program_ex(vm, options->program, options->scope, d, NULL);
    wrapped(vm, rv, "", s, "");
    HANDLEBARS_VALUE_UNDECL(d);
    return rv;
}
H(throw) { struct buf b = {0}; bstr(&b, ""); if (argc) strof(&b, vm, ARG(0)); free(impl_err); impl_err = b.p; handlebars_throw(HCTX, HANDELBARS_EXTERNAL_ERROR, "boom:%s", impl_err); }
/* execute the block twice, throwing inside is up to the block */
H(lamtext) { ev("lamtext", argc, argv, options); struct buf b = {0}; bstr(&b, "<"); if (argc && handlebars_value_get_type(ARG(0)) == HANDLEBARS_VALUE_TYPE_STRING) strof(&b, vm, ARG(0)); bstr(&b, ">"); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(lamtwice) { struct buf b = {0}; bstr(&b, ""); if (argc && handlebars_value_get_type(ARG(0)) == HANDLEBARS_VALUE_TYPE_STRING) strof(&b, vm, ARG(0)); bstr(&b, "{{planet}} => |planet|"); if (argc && handlebars_value_get_type(ARG(0)) == HANDLEBARS_VALUE_TYPE_STRING) strof(&b, vm, ARG(0)); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(lamvar) { return retstr(vm, rv, HBS_STRL("{{planet}}")); }
H(lamplanet) { /* returns scope.planet */
    if (argc && handlebars_value_get_type(ARG(0)) == HANDLEBARS_VALUE_TYPE_MAP) { HANDLEBARS_VALUE_DECL(t); struct handlebars_value * v = handlebars_value_map_str_find(ARG(0), HBS_STRL("planet"), t); if (v) handlebars_value_value(rv, v); HANDLEBARS_VALUE_UNDECL(t); }
    return rv; }
/* what can happen to a cache in the middle of a rendering; nothing at all when there is none */
H(cgc) { if (vm->cache) (void) handlebars_cache_gc(vm->cache); return rv; }
H(creset) { if (vm->cache) handlebars_cache_reset(vm->cache); return rv; }
H(cexp) { if (vm->cache) clock_now += 1000; return rv; }
H(lamfalse) { handlebars_value_boolean(rv, false); return rv; }
H(lamtrue) { handlebars_value_boolean(rv, true); return rv; }
H(lamlist) { struct handlebars_stack * s = handlebars_stack_ctor(HCTX, 1); for (int i = 1; i < 4; i++) { HANDLEBARS_VALUE_DECL(t); handlebars_value_integer(t, i); s = handlebars_stack_push(s, t); HANDLEBARS_VALUE_UNDECL(t); } handlebars_value_array(rv, s); return rv; }
H(missing) { struct buf b = {0}; bstr(&b, "M:"); if (options->name) bput(&b, hbs_str_val(options->name), hbs_str_len(options->name)); bfmt(&b, ":%d", argc); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(bmissing) { struct buf b = {0}; bstr(&b, "BM:"); if (options->name) bput(&b, hbs_str_val(options->name), hbs_str_len(options->name)); bstr(&b, ":"); encv(&b, argc ? ARG(0) : NULL, 0); bstr(&b, ":"); struct handlebars_string * s = handlebars_vm_execute_program(vm, options->program, options->scope); bput(&b, hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); retstr(vm, rv, b.p, b.n); free(b.p); return rv; }
H(logger) { struct buf b = {0}; bfmt(&b, "log:%d|", argc); for (int i = 0; i < argc; i++) { encv(&b, ARG(i), 0); talloc_free(handlebars_value_dump(ARG(i), HBSCTX(vm), 0)); } bput(&events, b.p, b.n); bstr(&events, "\n"); nevents++; free(b.p); return rv; }

static const struct { const char * n; hfn f; } impls[] = {
#define I(x) { #x, h_##x }
    I(enc), I(safe), I(id), I(null), I(cat), I(add), I(scope), I(list), I(hash), I(data), I(name), I(blk), I(inv), I(ctx), I(rep), I(bp), I(frame),
    I(throw), I(lamtext), I(lamtwice), I(lamvar), I(lamplanet), I(lamfalse), I(lamtrue), I(lamlist), I(missing), I(bmissing), I(logger), I(cgc), I(creset), I(cexp),
    { "each", handlebars_builtin_each }, { "if", handlebars_builtin_if }, { "with", handlebars_builtin_with },
};
static hfn find_impl(const char * n, size_t l) { for (size_t i = 0; i < sizeof impls / sizeof *impls; i++) if (strlen(impls[i].n) == l && !memcmp(impls[i].n, n, l)) return impls[i].f; return NULL; }
static const char * impl_name(hfn f) { for (size_t i = 0; i < sizeof impls / sizeof *impls; i++) if (impls[i].f == f) return impls[i].n; return NULL; }

/* ---- objects -------------------------------------------------------------------------------- */
#define NSLOT 64
static __thread struct handlebars_context * ctxs[NSLOT];
static __thread struct { struct handlebars_module * m; int ctx; } mods[NSLOT];
static __thread struct { struct handlebars_value v; int ctx; bool used; } vals[NSLOT];
static __thread struct { struct handlebars_vm * vm; int ctx; } vms[NSLOT];
static __thread struct { struct handlebars_cache * c; int ctx; } caches[NSLOT];
static __thread struct { struct handlebars_compiler * c; int ctx; } comps[NSLOT];
static __thread struct { struct handlebars_parser * p; int ctx; } parsers[NSLOT];

static void clearerr_ctx(struct handlebars_context * c) { memset(&c->e->loc, 0, sizeof c->e->loc); c->e->num = 0; c->e->msg = NULL; c->e->jmp = NULL; }
static void rep_err(struct handlebars_context * c)
{
    struct handlebars_locinfo l = handlebars_error_loc(c);
    reps("err"); repn(handlebars_error_num(c)); reps(handlebars_error_msg(c));
    char t[120]; snprintf(t, sizeof t, "%d,%d,%d,%d", l.first_line, l.first_column, l.last_line, l.last_column); reps(t);
    char * m = handlebars_error_message(c);
    char * js = handlebars_error_message_js(c);
    if (js) {
        char want[512];
        snprintf(want, sizeof want, "Parse error on line %d, column %d : %s", l.first_line, l.first_column, handlebars_error_msg(c));
        if (strcmp(js, want)) { talloc_free(m); m = talloc_asprintf(NULL, "another text in the form for JavaScript: %s", js); }
        talloc_free(js);
    }
    reps(m); talloc_free(m);
}

static int load_value(struct handlebars_context * ctx, struct handlebars_value * v, struct req * r, int fmt, int dat)
{
    if (rq_eq(r, fmt, "n")) { const char * q = decv(ctx, r->p[dat], r->p[dat] + r->l[dat], v); (void) q; return 0; }
    if (rq_eq(r, fmt, "j")) { handlebars_value_init_json_stringl(ctx, v, r->p[dat], r->l[dat]); handlebars_value_convert(v); return 0; }
    if (rq_eq(r, fmt, "w")) { handlebars_value_init_json_stringl(ctx, v, r->p[dat], r->l[dat]); return 0; }
    if (rq_eq(r, fmt, "J")) { char * s = rq_cstr(r, dat); char * t = talloc_strdup(ctx, s); free(s); handlebars_value_init_json_string(ctx, v, t); handlebars_value_convert(v); return 0; }
    if (rq_eq(r, fmt, "y")) { char * s = rq_cstr(r, dat); char * t = talloc_strdup(ctx, s); free(s); handlebars_value_init_yaml_string(ctx, v, t); return 0; }
    die("fmt"); return 1;
}

static struct handlebars_module * compile(struct handlebars_context * ctx, const char * t, size_t n, unsigned long flags, const char ** known)
{
    struct handlebars_parser * parser = handlebars_parser_ctor(ctx);
    struct handlebars_compiler * compiler = handlebars_compiler_ctor(ctx);
    struct handlebars_string * tmpl = handlebars_string_ctor(ctx, t, n);
    handlebars_compiler_set_flags(compiler, flags);
    if (known) handlebars_compiler_set_known_helpers(compiler, known);
    if (flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, flags);
    struct handlebars_program * program = handlebars_compiler_compile_ex(compiler, ast);
    struct handlebars_module * m = handlebars_program_serialize(ctx, program);
    handlebars_parser_dtor(parser);
    handlebars_compiler_dtor(compiler);
    return m;
}

static const char ** csv_names(struct handlebars_context * ctx, const char * p, size_t n)
{
    const char ** a = talloc_zero_array(ctx, const char *, 64); int c = 0;
    char * s = talloc_strndup(ctx, p, n);
    for (char * t = strtok(s, ","); t && c < 62; t = strtok(NULL, ",")) a[c++] = t;
    return a;
}

/* "name:impl,name:impl" */
static void load_helpers(struct handlebars_context * ctx, struct handlebars_vm * vm, const char * p, size_t n)
{
    struct handlebars_map * m = handlebars_map_ctor(ctx, 0);
    const char * e = p + n;
    while (p < e) {
        const char * q = p; while (q < e && *q != ':') q++;
        const char * z = q + 1; while (z < e && *z != ',') z++;
        hfn f = find_impl(q + 1, z - q - 1); if (!f) die("impl");
        HANDLEBARS_VALUE_DECL(hv);
        handlebars_value_helper(hv, f);
        m = handlebars_map_str_update(m, p, q - p, hv);
        HANDLEBARS_VALUE_UNDECL(hv);
        p = z + 1;
    }
    HANDLEBARS_VALUE_DECL(hm);
    handlebars_value_map(hm, m);
    handlebars_vm_set_helpers(vm, hm);
    HANDLEBARS_VALUE_UNDECL(hm);
}
static void load_partials(struct handlebars_context * ctx, struct handlebars_vm * vm, struct req * r, int fmt, int dat)
{
    HANDLEBARS_VALUE_DECL(pv);
    if (rq_eq(r, fmt, "l")) { /* base NUL ext */
        char * s = rq_cstr(r, dat); size_t bl = strlen(s);
        struct handlebars_string * base = handlebars_string_ctor(ctx, s, bl);
        struct handlebars_string * ext = handlebars_string_ctor(ctx, s + bl + 1, r->l[dat] - bl - 1);
        handlebars_value_partial_loader_init(ctx, base, ext, pv);
        free(s);
    } else {
        load_value(ctx, pv, r, fmt, dat);
    }
    handlebars_vm_set_partials(vm, pv);
    HANDLEBARS_VALUE_UNDECL(pv);
}

static struct handlebars_string * front(struct handlebars_context * ctx, struct req * r, int what, unsigned long flags, int t, const char ** known)
{
    struct handlebars_parser * parser = handlebars_parser_ctor(ctx);
    struct handlebars_string * tmpl = handlebars_string_ctor(ctx, r->p[t], r->l[t]);
    if (flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    struct handlebars_string * o = NULL;
    if (rq_eq(r, what, "lex")) {
        struct handlebars_token ** l = handlebars_lex_ex(parser, tmpl);
        o = handlebars_string_init(ctx, 64);
        for (; l && *l; l++) { struct handlebars_string * s = handlebars_token_print(ctx, *l, handlebars_token_print_flag_newlines); o = handlebars_string_append_str(ctx, o, s); }
        return o;
    }
    struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, flags);
    if (rq_eq(r, what, "ast")) return handlebars_ast_print(ctx, ast);
    if (rq_eq(r, what, "astsrc")) return handlebars_ast_to_string(ctx, ast);
    if (rq_eq(r, what, "parse")) return NULL;
    struct handlebars_compiler * compiler = handlebars_compiler_ctor(ctx);
    handlebars_compiler_set_flags(compiler, flags);
    if (known) handlebars_compiler_set_known_helpers(compiler, known);
    struct handlebars_program * program = handlebars_compiler_compile_ex(compiler, ast);
    if (rq_eq(r, what, "opcodes")) return handlebars_program_print(ctx, program, 0);
    if (rq_eq(r, what, "opcodesloc")) return handlebars_program_print(ctx, program, handlebars_opcode_printer_flag_locations);
    if (rq_eq(r, what, "module")) return handlebars_module_print(ctx, handlebars_program_serialize(ctx, program));
    return NULL;
}
static struct handlebars_cache * mkcache(struct handlebars_context * ctx, struct req * r, int kind, int a1, int a2)
{
    if (rq_eq(r, kind, "simple")) return handlebars_cache_simple_ctor(ctx);
    if (rq_eq(r, kind, "lmdb")) { char * p = rq_cstr(r, a1); struct handlebars_cache * k = handlebars_cache_lmdb_ctor(ctx, talloc_strdup(ctx, p)); free(p); return k; }
    if (rq_eq(r, kind, "mmap")) return handlebars_cache_mmap_ctor(ctx, a2 ? rq_num(r, a1) : 1 << 20, a2 ? rq_num(r, a2) : 512);
    die("cache kind"); return NULL;
}

/* ---- one-shot render ------------------------------------------------------------------------- */
struct rspec { int t, d, df, p, pf, h, dd, kh, ck, cp, fk; unsigned long flags; long runs; int left; bool outer; bool log; bool mutcheck; };
static __thread struct handlebars_value * dv_volatile;

static void parse_spec(struct req * r, struct rspec * s)
{
    memset(s, 0, sizeof *s); s->runs = 1; s->outer = 1;
    for (int i = 1; i + 1 < r->n; i += 2) {
        if (rq_eq(r, i, "t")) s->t = i + 1;
        else if (rq_eq(r, i, "d")) s->d = i + 1;
        else if (rq_eq(r, i, "df")) s->df = i + 1;
        else if (rq_eq(r, i, "p")) s->p = i + 1;
        else if (rq_eq(r, i, "pf")) s->pf = i + 1;
        else if (rq_eq(r, i, "h")) s->h = i + 1;
        else if (rq_eq(r, i, "dd")) s->dd = i + 1;
        else if (rq_eq(r, i, "kh")) s->kh = i + 1;
        else if (rq_eq(r, i, "c")) s->ck = i + 1;
        else if (rq_eq(r, i, "cp")) s->cp = i + 1;
        else if (rq_eq(r, i, "fk")) s->fk = i + 1;
        else if (rq_eq(r, i, "f")) s->flags = rq_num(r, i + 1);
        else if (rq_eq(r, i, "runs")) s->runs = rq_num(r, i + 1);
        else if (rq_eq(r, i, "outer")) s->outer = rq_num(r, i + 1);
        else if (rq_eq(r, i, "log")) s->log = rq_num(r, i + 1);
        else if (rq_eq(r, i, "mut")) s->mutcheck = rq_num(r, i + 1);
        else if (rq_eq(r, i, "left")) s->left = rq_num(r, i + 1);
        else die("render key");
    }
}

/* runs everything in ctx; throws through ctx's jmp */
static __thread long grown;
static void render_body(struct handlebars_context * ctx, struct req * r, struct rspec * s, struct handlebars_string ** outp, struct buf * after)
{
    if (s->fk) {
        *outp = front(ctx, r, s->fk, s->flags, s->t, s->kh ? csv_names(ctx, r->p[s->kh], r->l[s->kh]) : NULL);
        if (!*outp) *outp = handlebars_string_init(ctx, 0);
        if (rq_eq(r, s->fk, "module")) /* where and when the module was made says nothing */
            for (const char * k = "ADDR: "; k; k = *k == 'A' ? "TS: " : NULL) { char * q = strstr(hbs_str_val(*outp), k); for (; q && *q && *q != '\n'; q++) *q = '-'; }
        return;
    }
    HANDLEBARS_VALUE_DECL(data);
    HANDLEBARS_VALUE_DECL(dframe);
    if (s->d) load_value(ctx, data, r, s->df, s->d);
    struct handlebars_module * m = compile(ctx, r->p[s->t], r->l[s->t], s->flags, s->kh ? csv_names(ctx, r->p[s->kh], r->l[s->kh]) : NULL);
    struct handlebars_vm * vm = handlebars_vm_ctor(ctx);
    handlebars_vm_set_flags(vm, s->flags);
    if (s->p) load_partials(ctx, vm, r, s->pf, s->p);
    if (s->h) load_helpers(ctx, vm, r->p[s->h], r->l[s->h]);
    if (s->dd) { decv(ctx, r->p[s->dd], r->p[s->dd] + r->l[s->dd], dframe); handlebars_vm_set_data(vm, dframe); }
    if (s->ck) handlebars_vm_set_cache(vm, mkcache(ctx, r, s->ck, s->cp, 0));
    if (s->log) handlebars_vm_set_logger(vm, (handlebars_func) h_logger, NULL);
    for (long i = 0; i < s->runs; i++) {
        long b0 = 0;
        if (s->left) { if (*outp) handlebars_string_delref(*outp); b0 = talloc_total_blocks(ctx); }
        *outp = handlebars_vm_execute(vm, m, data);
        if (s->left) grown = (long) talloc_total_blocks(ctx) - b0; /* by the last run: its result */
    }
    if (*outp) *outp = talloc_steal(ctx, *outp);
    handlebars_vm_dtor(vm);
    if (s->mutcheck) encv(after, data, 0);
    HANDLEBARS_VALUE_UNDECL(dframe);
    HANDLEBARS_VALUE_UNDECL(data);
    if (s->left) talloc_free(m);
}

static void op_render(struct req * r)
{
    struct rspec s; parse_spec(r, &s);
    struct handlebars_context * ctx = handlebars_context_ctor();
    struct handlebars_string * volatile dummy = NULL; (void) dummy;
    static __thread struct handlebars_string * out; out = NULL;
    static __thread struct buf after; after.n = 0;
    static __thread long left; left = -1;
    jmp_buf jb;
    events.n = 0; nevents = 0;
    if (setjmp(jb) == 0) {
        ctx->e->jmp = &jb;
        render_body(ctx, r, &s, &out, &after);
        /* blocks that the second, third... whole run leaves in the context */
        for (int k = 0; k < s.left; k++) { handlebars_string_delref(out); out = NULL; events.n = 0; nevents = 0; long b0 = talloc_total_blocks(ctx); render_body(ctx, r, &s, &out, &after); left = talloc_total_blocks(ctx) - b0; }
        ctx->e->jmp = NULL;
        if (out) { reps("ok"); rep(hbs_str_val(out), hbs_str_len(out)); }
        else rep_err(ctx);
    } else {
        ctx->e->jmp = NULL;
        rep_err(ctx);
    }
    reps("ev"); rep(events.p ? events.p : "", events.n);
    if (s.left) { char t[60]; snprintf(t, sizeof t, "%ld,%ld", left, grown); reps("left"); reps(t); }
    if (s.mutcheck) { reps("after"); rep(after.p ? after.p : "", after.n); }
    handlebars_context_dtor(ctx);
}

/* ---- allocation failure sweep ----------------------------------------------------------------- */
/* allocfail first step max mode  <render spec>: re-runs the render with the k-th allocation failing */
static void op_allocfail(struct req * r)
{
    long first = rq_num(r, 1), step = rq_num(r, 2), max = rq_num(r, 3), mode = rq_num(r, 4);
    struct req q = *r; for (int i = 5; i < r->n; i++) { q.p[i - 4] = r->p[i]; q.l[i - 4] = r->l[i]; } q.n = r->n - 4;
    struct rspec s; parse_spec(&q, &s);
    static __thread struct handlebars_string * out; static __thread struct buf after, base; base.n = 0;
    static __thread volatile long k; long npoints = 0, nerr = 0, nok = 0; static __thread volatile int base_err;
    base_err = -1;
    long base_calls = 0;
    /* baseline: counted run */
    for (int pass = 0; pass < 1; pass++) {
        struct handlebars_context * ctx = handlebars_context_ctor(); jmp_buf jb; out = NULL; after.n = 0; events.n = 0;
        handlebars_memory_fail_set_flags(handlebars_memory_fail_flag_alloc);
        handlebars_memory_fail_counter(1 << 30);
        if (setjmp(jb) == 0) { ctx->e->jmp = &jb; render_body(ctx, &q, &s, &out, &after); base_err = 0; }
        else base_err = handlebars_error_num(ctx);
        base_calls = handlebars_memory_get_call_counter();
        handlebars_memory_fail_disable();
        ctx->e->jmp = NULL;
        if (out) bput(&base, hbs_str_val(out), hbs_str_len(out)); else bput(&base, "", 0);
        handlebars_context_dtor(ctx);
    }
    char bad[256] = "";
    for (k = first; npoints < max && k <= base_calls; k += step) {
        struct handlebars_context * ctx = handlebars_context_ctor(); jmp_buf jb; out = NULL; after.n = 0; events.n = 0;
        static __thread volatile int e; e = 0;
        fprintf(stderr, "@k=%ld\n", (long) k);
        handlebars_memory_fail_set_flags(mode ? handlebars_memory_fail_flag_alloc | handlebars_memory_fail_flag_yy : handlebars_memory_fail_flag_alloc);
        handlebars_memory_fail_counter((int) k);
        if (setjmp(jb) == 0) { ctx->e->jmp = &jb; render_body(ctx, &q, &s, &out, &after); }
        else e = handlebars_error_num(ctx);
        handlebars_memory_fail_disable();
        ctx->e->jmp = NULL;
        npoints++;
        if (!e && !out) e = handlebars_error_num(ctx);
        if (e) {
            nerr++;
            const char * m = handlebars_error_msg(ctx);
            if (!m || !*m) snprintf(bad, sizeof bad, "k=%ld: error %d without a message", (long) k, e);
            else if (e != HANDLEBARS_NOMEM && e != base_err) snprintf(bad, sizeof bad, "k=%ld: error %d (%.80s) instead of out-of-memory", (long) k, e, m);
        } else {
            nok++;
            if (base_err) snprintf(bad, sizeof bad, "k=%ld: rendered although the template is in error", (long) k);
            else if (!out || hbs_str_len(out) != base.n || memcmp(hbs_str_val(out), base.p, base.n)) {
                snprintf(bad, sizeof bad, "k=%ld: completed with different output (%.60s)", (long) k, out ? hbs_str_val(out) : "(null)");
            }
        }
        if (!*bad) { /* and again, in the same context, with memory */
            static __thread struct handlebars_string * out2; out2 = NULL; static __thread volatile int e2; e2 = 0; jmp_buf jb2;
            clearerr_ctx(ctx); after.n = 0; events.n = 0;
            if (setjmp(jb2) == 0) { ctx->e->jmp = &jb2; render_body(ctx, &q, &s, &out2, &after); }
            else e2 = handlebars_error_num(ctx);
            ctx->e->jmp = NULL;
            if (!e2 && !out2) e2 = handlebars_error_num(ctx);
            if (e2 != base_err) snprintf(bad, sizeof bad, "k=%ld: error %d (%.80s) when tried again with memory", (long) k, e2, e2 ? handlebars_error_msg(ctx) : "none");
            else if (!e2 && (hbs_str_len(out2) != base.n || memcmp(hbs_str_val(out2), base.p, base.n))) snprintf(bad, sizeof bad, "k=%ld: different output when tried again with memory", (long) k);
        }
        handlebars_context_dtor(ctx);
        if (*bad) break;
    }
    reps("done"); repn(base_calls); repn(npoints); repn(nerr); repn(nok); reps(bad);
}

/* ---- session ops --------------------------------------------------------------------------------- */
/* the caller's handler is still the caller's afterwards */
static void stale_jmp(struct handlebars_context * c, jmp_buf * want) { if (c->e->jmp != want) { fprintf(stderr, "MONITOR: stale jump buffer left behind\n"); abort(); } c->e->jmp = NULL; }
#define TRY(ctx) jmp_buf jb_; struct handlebars_context * tc_ = (ctx); tc_->e->jmp = &jb_; if (setjmp(jb_) == 0) {
#define CATCH stale_jmp(tc_, &jb_); } else { stale_jmp(tc_, &jb_);
#define ENDTRY }

static void op_ctx_new(struct req * r) { int h = rq_num(r, 1); ctxs[h] = handlebars_context_ctor(); reps("ok"); }
static void op_ctx_free(struct req * r)
{
    int h = rq_num(r, 1);
    for (int i = 0; i < NSLOT; i++) {
        if (vals[i].used && vals[i].ctx == h) { handlebars_value_dtor(&vals[i].v); vals[i].used = false; }
        if (vms[i].vm && vms[i].ctx == h) { handlebars_vm_dtor(vms[i].vm); vms[i].vm = NULL; }
        if (mods[i].m && mods[i].ctx == h) mods[i].m = NULL;
        if (caches[i].c && caches[i].ctx == h) { handlebars_cache_dtor(caches[i].c); caches[i].c = NULL; }
        if (comps[i].c && comps[i].ctx == h) comps[i].c = NULL;
        if (parsers[i].p && parsers[i].ctx == h) parsers[i].p = NULL;
    }
    if (ctxs[h]) handlebars_context_dtor(ctxs[h]);
    ctxs[h] = NULL; reps("ok");
}
static void op_compile(struct req * r) /* slot ctx flags tmpl [kh] */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_module * m = compile(ctxs[c], r->p[4], r->l[4], rq_num(r, 3), r->n > 5 ? csv_names(ctxs[c], r->p[5], r->l[5]) : NULL);
        mods[s].m = m; mods[s].ctx = c; reps("ok");
    CATCH rep_err(ctxs[c]); ENDTRY
}
/* one parse tree compiled several times: what a compilation leaves of it */
static struct handlebars_program * compile_ast(struct handlebars_context * ctx, struct handlebars_ast_node * ast, unsigned long flags)
{
    struct handlebars_compiler * compiler = handlebars_compiler_ctor(ctx);
    handlebars_compiler_set_flags(compiler, flags);
    return handlebars_compiler_compile_ex(compiler, ast);
}
static void try_compile_ast(struct handlebars_context * ctx, struct handlebars_ast_node * ast, unsigned long flags)
{
    TRY(ctx) struct handlebars_compiler * compiler = handlebars_compiler_ctor(ctx); handlebars_compiler_set_flags(compiler, flags); handlebars_compiler_compile_ex(compiler, ast); handlebars_compiler_dtor(compiler); CATCH clearerr_ctx(ctx); ENDTRY
}
static struct handlebars_ast_node * parse_ast(struct handlebars_context * ctx, struct req * r, int t, unsigned long flags)
{
    struct handlebars_string * tmpl = handlebars_string_ctor(ctx, r->p[t], r->l[t]);
    if (flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    return handlebars_parse_ex(handlebars_parser_ctor(ctx), tmpl, flags);
}
static void op_compile_again(struct req * r) /* slot ctx flags tmpl flags2... */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); struct handlebars_context * ctx = ctxs[c]; clearerr_ctx(ctx);
    struct handlebars_ast_node * volatile ast = NULL;
    { TRY(ctx) ast = parse_ast(ctx, r, 4, rq_num(r, 3)); CATCH rep_err(ctx); return; ENDTRY }
    for (int i = 5; i < r->n; i++) try_compile_ast(ctx, ast, rq_num(r, i));
    { TRY(ctx) mods[s].m = handlebars_program_serialize(ctx, compile_ast(ctx, ast, rq_num(r, 3))); mods[s].ctx = c; reps("ok"); CATCH rep_err(ctx); ENDTRY }
}
static void op_front_again(struct req * r) /* flags tmpl flags2 : the forms, and the forms after compiling with both */
{
    struct handlebars_context * ctx = handlebars_context_ctor(); unsigned long f = rq_num(r, 1);
    struct handlebars_ast_node * volatile ast = NULL; struct handlebars_string * volatile o[6] = {0};
    { TRY(ctx) ast = parse_ast(ctx, r, 2, f); CATCH rep_err(ctx); goto end; ENDTRY }
    for (int i = 0; i < 2; i++) {
        { TRY(ctx) o[i * 3] = handlebars_ast_print(ctx, ast); o[i * 3 + 1] = handlebars_ast_to_string(ctx, ast); CATCH rep_err(ctx); goto end; ENDTRY }
        if (i) try_compile_ast(ctx, ast, rq_num(r, 3));
        { TRY(ctx) struct handlebars_program * p = compile_ast(ctx, ast, f); handlebars_program_print(ctx, p, 0); o[i * 3 + 2] = handlebars_program_print(ctx, p, 0); CATCH o[i * 3 + 2] = handlebars_string_ctor(ctx, HBS_STRL("error")); ENDTRY }
    }
    reps("ok"); for (int i = 0; i < 6; i++) rep(hbs_str_val(o[i]), hbs_str_len(o[i]));
end:
    handlebars_context_dtor(ctx);
}
/* a partial loader used as the map it is */
static void ldr_walk(struct handlebars_context * ctx, struct handlebars_value * lv, int depth, struct handlebars_string * find)
{
    char num[32]; snprintf(num, sizeof(num), "<%ld", handlebars_value_count(lv)); reps(num);
    HANDLEBARS_VALUE_FOREACH_KV(lv, k, v) {
        rep(hbs_str_val(k), hbs_str_len(k));
        struct handlebars_string * s = handlebars_value_get_string(v); rep(hbs_str_val(s), hbs_str_len(s));
        if (find) { HANDLEBARS_VALUE_DECL(rv); reps(handlebars_value_map_find(lv, find, rv) ? "1" : "0"); HANDLEBARS_VALUE_UNDECL(rv); find = NULL; }
        if (depth) ldr_walk(ctx, lv, depth - 1, NULL);
    } HANDLEBARS_VALUE_FOREACH_END();
    reps(">");
}
static void op_loader(struct req * r) /* base ext (f name | i depth | a name)... */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    HANDLEBARS_VALUE_DECL(lv);
    handlebars_value_partial_loader_init(ctx, handlebars_string_ctor(ctx, r->p[1], r->l[1]), handlebars_string_ctor(ctx, r->p[2], r->l[2]), lv);
    reps("ok");
    for (int i = 3; i + 1 < r->n; i += 2) {
        struct handlebars_string * name = handlebars_string_ctor(ctx, r->p[i + 1], r->l[i + 1]);
        TRY(ctx)
            if (rq_eq(r, i, "f")) {
                HANDLEBARS_VALUE_DECL(rv);
                struct handlebars_value * v = handlebars_value_map_find(lv, name, rv);
                if (v) { struct handlebars_string * s = handlebars_value_get_string(v); reps("+"); rep(hbs_str_val(s), hbs_str_len(s)); } else reps("-");
                HANDLEBARS_VALUE_UNDECL(rv);
            } else ldr_walk(ctx, lv, rq_eq(r, i, "i") ? (int) rq_num(r, i + 1) : 0, rq_eq(r, i, "a") ? name : NULL);
        CATCH reps("!"); clearerr_ctx(ctx); ENDTRY
    }
    HANDLEBARS_VALUE_UNDECL(lv);
    handlebars_context_dtor(ctx);
}
static void op_val(struct req * r) /* slot ctx fmt data */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); clearerr_ctx(ctxs[c]);
    if (vals[s].used) { handlebars_value_dtor(&vals[s].v); vals[s].used = false; }
    handlebars_value_init(&vals[s].v); vals[s].used = true; vals[s].ctx = c;
    TRY(ctxs[c]) load_value(ctxs[c], &vals[s].v, r, 3, 4); reps("ok"); CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_enc(struct req * r) /* slot -> encoding */
{
    static __thread struct buf b; b.n = 0; encv(&b, &vals[rq_num(r, 1)].v, 0); reps("ok"); rep(b.p, b.n);
}
static void op_vm(struct req * r) /* slot ctx flags pf p helpers cacheslot dataframe log */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_vm * vm = handlebars_vm_ctor(ctxs[c]);
        handlebars_vm_set_flags(vm, rq_num(r, 3));
        if (r->n > 5 && r->l[5]) load_partials(ctxs[c], vm, r, 4, 5);
        if (r->n > 6 && r->l[6]) load_helpers(ctxs[c], vm, r->p[6], r->l[6]);
        if (r->n > 7 && r->l[7]) handlebars_vm_set_cache(vm, caches[rq_num(r, 7)].c);
        if (r->n > 8 && r->l[8]) { HANDLEBARS_VALUE_DECL(d); decv(ctxs[c], r->p[8], r->p[8] + r->l[8], d); handlebars_vm_set_data(vm, d); HANDLEBARS_VALUE_UNDECL(d); }
        handlebars_vm_set_logger(vm, (handlebars_func) h_logger, NULL);
        vms[s].vm = vm; vms[s].ctx = c; reps("ok");
    CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_vm_free(struct req * r) { int s = rq_num(r, 1); if (vms[s].vm) handlebars_vm_dtor(vms[s].vm); vms[s].vm = NULL; reps("ok"); }
static void op_exec(struct req * r) /* vm mod val outer free */
{
    if (!mods[rq_num(r, 2)].m) { reps("none"); return; }
    int v = rq_num(r, 1), m = rq_num(r, 2), d = rq_num(r, 3); long outer = rq_num(r, 4);
    struct handlebars_context * ctx = ctxs[vms[v].ctx]; clearerr_ctx(ctx);
    events.n = 0; nevents = 0;
    struct handlebars_string * out;
    if (outer) {
        TRY(ctx)
            out = handlebars_vm_execute(vms[v].vm, mods[m].m, &vals[d].v);
            if (!out) { reps("null"); } else { reps("ok"); rep(hbs_str_val(out), hbs_str_len(out)); handlebars_talloc_free(out); }
        CATCH rep_err(ctx); ENDTRY
    } else {
        out = handlebars_vm_execute(vms[v].vm, mods[m].m, &vals[d].v);
        stale_jmp(ctx, NULL);
        if (!out) rep_err(ctx); else { reps("ok"); rep(hbs_str_val(out), hbs_str_len(out)); handlebars_talloc_free(out); }
    }
    reps("ev"); rep(events.p ? events.p : "", events.n);
    reps("blocks"); repn(talloc_total_blocks(ctx)); reps("size"); repn(talloc_total_size(ctx));
}
static void op_exec_rep(struct req * r) /* vm mod val n: blocks after each run */
{
    int v = rq_num(r, 1), m = rq_num(r, 2), d = rq_num(r, 3); long n = rq_num(r, 4);
    struct handlebars_context * ctx = ctxs[vms[v].ctx]; clearerr_ctx(ctx);
    static __thread volatile long i; static __thread struct buf seq; seq.n = 0;
    TRY(ctx)
        for (i = 0; i < n; i++) {
            struct handlebars_string * out = handlebars_vm_execute(vms[v].vm, mods[m].m, &vals[d].v);
            handlebars_talloc_free(out);
            bfmt(&seq, "%zu:%zu,", talloc_total_blocks(ctx), talloc_total_size(ctx));
        }
        reps("ok"); rep(seq.p ? seq.p : "", seq.n);
    CATCH rep_err(ctx); ENDTRY
}
/* parser/compiler objects that are reused across inputs */
static void op_reuse_new(struct req * r) { int s = rq_num(r, 1), c = rq_num(r, 2); parsers[s].p = handlebars_parser_ctor(ctxs[c]); parsers[s].ctx = c; comps[s].c = handlebars_compiler_ctor(ctxs[c]); comps[s].ctx = c; reps("ok"); }
static void op_reuse_compile(struct req * r) /* slot modslot flags tmpl [outer] */
{
    int s = rq_num(r, 1), m = rq_num(r, 2); struct handlebars_context * ctx = ctxs[parsers[s].ctx]; clearerr_ctx(ctx);
    if (r->n > 5 && !rq_num(r, 5)) { /* errors by return value */
        handlebars_compiler_set_flags(comps[s].c, rq_num(r, 3));
        struct handlebars_string * volatile tmpl = handlebars_string_ctor(ctx, r->p[4], r->l[4]);
        if (rq_num(r, 3) & handlebars_compiler_flag_compat) {
            TRY(ctx) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL); CATCH rep_err(ctx); return; ENDTRY
        }
        struct handlebars_ast_node * ast = handlebars_parse_ex(parsers[s].p, tmpl, rq_num(r, 3));
        stale_jmp(ctx, NULL);
        if (handlebars_error_num(ctx)) { if (ast) reps("null"); else rep_err(ctx); return; }
        struct handlebars_program * program = handlebars_compiler_compile_ex(comps[s].c, ast);
        stale_jmp(ctx, NULL);
        if (handlebars_error_num(ctx)) { rep_err(ctx); return; }
        mods[m].m = handlebars_program_serialize(ctx, program); mods[m].ctx = parsers[s].ctx; reps("ok");
        return;
    }
    TRY(ctx)
        handlebars_compiler_set_flags(comps[s].c, rq_num(r, 3));
        struct handlebars_string * tmpl = handlebars_string_ctor(ctx, r->p[4], r->l[4]);
        if (rq_num(r, 3) & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
        struct handlebars_ast_node * ast = handlebars_parse_ex(parsers[s].p, tmpl, rq_num(r, 3));
        struct handlebars_program * program = handlebars_compiler_compile_ex(comps[s].c, ast);
        mods[m].m = handlebars_program_serialize(ctx, program); mods[m].ctx = parsers[s].ctx; reps("ok");
    CATCH rep_err(ctx); ENDTRY
}

/* caches */
static void op_cache_new(struct req * r) /* slot ctx kind arg1 arg2 */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_cache * k = mkcache(ctxs[c], r, 3, 4, 5);
        caches[s].c = k; caches[s].ctx = c; reps("ok");
    CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_cache_cfg(struct req * r) /* slot max_age max_entries max_size */
{
    struct handlebars_cache * k = caches[rq_num(r, 1)].c; char * a = rq_cstr(r, 2);
    k->max_age = strtod(a, NULL); k->max_entries = rq_num(r, 3); k->max_size = rq_num(r, 4); free(a); reps("ok");
}
static void op_cache_free(struct req * r) { int s = rq_num(r, 1); handlebars_cache_dtor(caches[s].c); caches[s].c = NULL; reps("ok"); }
static void op_cache_add(struct req * r) /* slot key mod */
{
    int s = rq_num(r, 1), c = caches[s].ctx; clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_string * key = handlebars_string_ctor(ctxs[c], r->p[2], r->l[2]);
        handlebars_string_addref(key);
        handlebars_cache_add(caches[s].c, key, mods[rq_num(r, 3)].m); handlebars_string_delref(key); reps("ok");
    CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_cache_find(struct req * r) /* slot key mod|-1 release -> found, module content; keeps it in a module slot if asked */
{
    int s = rq_num(r, 1), c = caches[s].ctx; clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_string * key = handlebars_string_ctor(ctxs[c], r->p[2], r->l[2]);
        handlebars_string_addref(key);
        struct handlebars_module * m = handlebars_cache_find(caches[s].c, key);
        if (!m) { reps("miss"); }
        else {
            int keep = rq_num(r, 3); reps("hit"); repn(handlebars_module_get_size(m)); repn(handlebars_module_get_version(m));
            if (keep >= 0) { mods[keep].m = m; mods[keep].ctx = c; }
            if (rq_num(r, 4)) handlebars_cache_release(caches[s].c, key, m);
        }
        handlebars_string_delref(key);
    CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_cache_release(struct req * r) /* slot key mod */
{
    int s = rq_num(r, 1), c = caches[s].ctx; clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        struct handlebars_string * key = handlebars_string_ctor(ctxs[c], r->p[2], r->l[2]);
        int m = rq_num(r, 3); handlebars_string_addref(key); handlebars_cache_release(caches[s].c, key, mods[m].m); handlebars_string_delref(key); mods[m].m = NULL; reps("ok");
    CATCH rep_err(ctxs[c]); ENDTRY
}
static void op_cache_ctl(struct req * r) /* slot gc|reset|stat */
{
    int s = rq_num(r, 1), c = caches[s].ctx; clearerr_ctx(ctxs[c]);
    TRY(ctxs[c])
        if (rq_eq(r, 2, "gc")) { int n = handlebars_cache_gc(caches[s].c); reps("ok"); repn(n); }
        else if (rq_eq(r, 2, "reset")) { handlebars_cache_reset(caches[s].c); reps("ok"); }
        else {
            struct handlebars_cache_stat t = handlebars_cache_stat(caches[s].c); reps("ok");
            reps(t.name); repn(t.current_entries); repn(t.hits); repn(t.misses); repn(t.refcount); repn(t.collisions);
            repn(t.current_size); repn(t.total_size); repn(t.current_data_size); repn(t.total_data_size); repn(t.total_entries);
        }
    CATCH rep_err(ctxs[c]); ENDTRY
}

/* what is in a database file, and damage done to it: path how(flip|cut|grow|zero|text|count) nth seed */
static void op_lmdb(struct req * r)
{
    char * path = rq_cstr(r, 1); MDB_env * env; MDB_txn * txn; MDB_dbi dbi; MDB_cursor * cur; MDB_val k, v; long nth = rq_num(r, 3), n = 0; unsigned long seed = rq_num(r, 4);
    mdb_env_create(&env); int e = mdb_env_open(env, path, MDB_WRITEMAP | MDB_NOSUBDIR, 0644); if (e) { reps("err"); repn(e); goto out; }
    e = mdb_txn_begin(env, NULL, 0, &txn); if (!e) e = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi); if (!e) e = mdb_cursor_open(txn, dbi, &cur); if (e) { reps("err"); repn(e); goto out; }
    long done = 0, size = 0, at = 0;
    while ((e = mdb_cursor_get(cur, &k, &v, MDB_NEXT)) == 0) {
        if (n++ != nth) continue;
        size = v.mv_size; char * c = malloc(v.mv_size + 4096); memcpy(c, v.mv_data, v.mv_size); memset(c + v.mv_size, (int) seed, 4096);
        MDB_val w = { v.mv_size, c }; static __thread char key[600]; MDB_val kk = { k.mv_size, memcpy(key, k.mv_data, k.mv_size < 600 ? k.mv_size : 600) };
        if (rq_eq(r, 2, "flip")) { at = seed % v.mv_size; c[at] ^= 1 + (seed / v.mv_size) % 255; }
        else if (rq_eq(r, 2, "cut")) w.mv_size = seed % v.mv_size;
        else if (rq_eq(r, 2, "grow")) w.mv_size += 1 + seed % 4000;
        else if (rq_eq(r, 2, "zero")) { at = seed % v.mv_size; memset(c + at, 0, v.mv_size - at); }
        else if (rq_eq(r, 2, "noise")) for (size_t i = 0; i < w.mv_size; i++) c[i] = (char) (seed = seed * 6364136223846793005UL + 1442695040888963407UL >> 1);
        e = mdb_cursor_put(cur, &kk, &w, MDB_CURRENT); if (e) e = mdb_put(txn, dbi, &kk, &w, 0); done = 1; free(c);
        break;
    }
    mdb_cursor_close(cur); e = mdb_txn_commit(txn);
    reps("ok"); repn(done); repn(size); repn(at); repn(n); repn(e);
out: mdb_env_close(env); free(path);
}

/* modules */
static void op_module(struct req * r) /* slot what ... */
{
    if (!mods[rq_num(r, 1)].m) { reps("none"); return; }
    int s = rq_num(r, 1); struct handlebars_module * m = mods[s].m; struct handlebars_context * ctx = ctxs[mods[s].ctx]; clearerr_ctx(ctx);
    TRY(ctx)
    if (rq_eq(r, 2, "norm")) { /* normalised bytes of a copy */
        struct handlebars_module * t = talloc_memdup(ctx, m, m->size);
        handlebars_module_patch_pointers(t);
        handlebars_module_normalize_pointers(t, (void *) (uintptr_t) rq_num(r, 3));
        reps("ok"); rep(t, t->size); talloc_free(t);
    } else if (rq_eq(r, 2, "move")) { /* relocate: dst slot, offset within a fresh allocation, scrub the original */
        int d = rq_num(r, 3); size_t off = rq_num(r, 4) * 16;
        size_t size = m->size; char * raw = talloc_size(ctx, size + off + 64); struct handlebars_module * t = (void *) (raw + off);
        memcpy(t, m, size);
        if (rq_num(r, 5) == 1) { handlebars_module_patch_pointers(t); handlebars_module_normalize_pointers(t, NULL); }
        handlebars_module_patch_pointers(t);
        if (rq_num(r, 6)) memset(m, 0xA5, size);
        mods[d].m = t; mods[d].ctx = mods[s].ctx; reps("ok");
    } else if (rq_eq(r, 2, "hash")) { uint64_t h = handlebars_module_generate_hash(m); char t[40]; snprintf(t, 40, "%llx", (unsigned long long) h); reps("ok"); reps(t); }
    else if (rq_eq(r, 2, "verify")) { bool b = handlebars_module_verify(m, rq_num(r, 3) ? ctx : NULL); reps("ok"); repn(b); }
    else if (rq_eq(r, 2, "flip")) { /* byte xor */ long o = rq_num(r, 3); ((unsigned char *) m)[o] ^= rq_num(r, 4); reps("ok"); }
    else if (rq_eq(r, 2, "info")) {
        reps("ok"); repn(m->size); repn(m->version); repn(m->flags); repn(m->program_count); repn(m->opcode_count);
        repn(offsetof(struct handlebars_module, hash)); repn(offsetof(struct handlebars_module, ts)); repn(offsetof(struct handlebars_module, data)); repn(m->data_offset);
        repn((char *) m->programs - (char *) m); repn((char *) m->opcodes - (char *) m); repn(m->addr == (void *) m); repn(sizeof(struct handlebars_opcode)); repn(m->ts); repn(offsetof(struct handlebars_module, size)); repn(offsetof(struct handlebars_module, version));
    } else if (rq_eq(r, 2, "print")) { struct handlebars_string * o = handlebars_module_print(ctx, m); reps("ok"); rep(hbs_str_val(o), hbs_str_len(o)); }
    else if (rq_eq(r, 2, "ops")) { /* everything in it, as it is in memory */
        reps("ok");
        for (size_t g = 0; g < m->program_count; g++) {
            reps("program"); repn(m->programs[g].guid); repn(m->programs[g].opcode_count); repn(m->programs[g].opcode_offset);
            for (size_t i = 0; i < m->programs[g].opcode_count; i++) {
                struct handlebars_opcode * o = &m->opcodes[m->programs[g].opcode_offset + i];
                struct handlebars_operand * ops[4] = {&o->op1, &o->op2, &o->op3, &o->op4};
                reps("op"); repn(o->type); repn(o->loc.first_line); repn(o->loc.first_column); repn(o->loc.last_line); repn(o->loc.last_column);
                for (int k = 0; k < 4; k++) switch (ops[k]->type) {
                    case handlebars_operand_type_null: reps("n"); break;
                    case handlebars_operand_type_boolean: reps("b"); repn(ops[k]->data.boolval); break;
                    case handlebars_operand_type_long: reps("l"); repn(ops[k]->data.longval); break;
                    case handlebars_operand_type_string: reps("s"); rep(hbs_str_val(ops[k]->data.string.string), hbs_str_len(ops[k]->data.string.string)); break;
                    case handlebars_operand_type_array: reps("a"); repn(ops[k]->data.array.count);
                        for (size_t j = 0; j < ops[k]->data.array.count; j++) { struct handlebars_string * e = ops[k]->data.array.array[j].string; rep(hbs_str_val(e), hbs_str_len(e)); }
                        break;
                }
            }
        }
    }
    else if (rq_eq(r, 2, "copyts")) { mods[s].m->ts = rq_num(r, 3); reps("ok"); }
    else if (rq_eq(r, 2, "setver")) { mods[s].m->version = rq_num(r, 3); reps("ok"); }
    else if (rq_eq(r, 2, "load")) { /* from file bytes: slot load bytes */
        struct handlebars_module * t = talloc_memdup(ctx, r->p[3], r->l[3]); mods[s].m = t; handlebars_module_patch_pointers(t); reps("ok"); }
    else die("module op");
    CATCH rep_err(ctx); ENDTRY
}
static void op_module_load(struct req * r) /* slot ctx bytes */
{
    int s = rq_num(r, 1), c = rq_num(r, 2); struct handlebars_module * t = talloc_memdup(ctxs[c], r->p[3], r->l[3]);
    handlebars_module_patch_pointers(t); mods[s].m = t; mods[s].ctx = c; reps("ok");
}

/* ---- front-end inspection ------------------------------------------------------------------------- */
static void op_lex(struct req * r) /* tmpl */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    TRY(ctx)
        struct handlebars_parser * parser = handlebars_parser_ctor(ctx);
        struct handlebars_token ** t = handlebars_lex_ex(parser, handlebars_string_ctor(ctx, r->p[1], r->l[1]));
        reps("ok");
        for (; t && *t; t++) {
            reps(handlebars_token_readable_type(handlebars_token_get_type(*t)));
            struct handlebars_string * s = handlebars_token_get_text(*t);
            if (s) rep(hbs_str_val(s), hbs_str_len(s)); else reps("");
        }
    CATCH rep_err(ctx); ENDTRY
    handlebars_context_dtor(ctx);
}
static void op_front(struct req * r) /* what flags tmpl [kh] : ast | astsrc | parse | opcodes | module | compile | lex */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    TRY(ctx)
        struct handlebars_string * o = front(ctx, r, 1, rq_num(r, 2), 3, r->n > 4 && r->l[4] ? csv_names(ctx, r->p[4], r->l[4]) : NULL);
        reps("ok"); if (o) rep(hbs_str_val(o), hbs_str_len(o)); else reps("");
    CATCH rep_err(ctx); ENDTRY
    handlebars_context_dtor(ctx);
}

#include "ds.h"
#include "own.h"

static void op_par(struct req * r);

static void handle(struct req * r)
{
    if (rq_eq(r, 0, "render")) op_render(r);
    else if (rq_eq(r, 0, "allocfail")) op_allocfail(r);
    else if (rq_eq(r, 0, "ctx_new")) op_ctx_new(r);
    else if (rq_eq(r, 0, "ctx_free")) op_ctx_free(r);
    else if (rq_eq(r, 0, "compile")) op_compile(r);
    else if (rq_eq(r, 0, "val")) op_val(r);
    else if (rq_eq(r, 0, "enc")) op_enc(r);
    else if (rq_eq(r, 0, "vm")) op_vm(r);
    else if (rq_eq(r, 0, "vm_free")) op_vm_free(r);
    else if (rq_eq(r, 0, "exec")) op_exec(r);
    else if (rq_eq(r, 0, "exec_rep")) op_exec_rep(r);
    else if (rq_eq(r, 0, "reuse_new")) op_reuse_new(r);
    else if (rq_eq(r, 0, "reuse_compile")) op_reuse_compile(r);
    else if (rq_eq(r, 0, "clock")) { clock_now = rq_num(r, 1); reps("ok"); }
    else if (rq_eq(r, 0, "now")) { reps("ok"); repn(time(NULL)); }
    else if (rq_eq(r, 0, "lmdb")) op_lmdb(r);
    else if (rq_eq(r, 0, "cache_new")) op_cache_new(r);
    else if (rq_eq(r, 0, "cache_cfg")) op_cache_cfg(r);
    else if (rq_eq(r, 0, "cache_free")) op_cache_free(r);
    else if (rq_eq(r, 0, "cache_add")) op_cache_add(r);
    else if (rq_eq(r, 0, "cache_find")) op_cache_find(r);
    else if (rq_eq(r, 0, "cache_release")) op_cache_release(r);
    else if (rq_eq(r, 0, "cache_ctl")) op_cache_ctl(r);
    else if (rq_eq(r, 0, "module")) op_module(r);
    else if (rq_eq(r, 0, "module_load")) op_module_load(r);
    else if (rq_eq(r, 0, "lex")) op_lex(r);
    else if (rq_eq(r, 0, "front")) op_front(r);
    else if (rq_eq(r, 0, "loader")) op_loader(r);
    else if (rq_eq(r, 0, "front_again")) op_front_again(r);
    else if (rq_eq(r, 0, "compile_again")) op_compile_again(r);
    else if (rq_eq(r, 0, "leak")) {
#ifdef WITH_LSAN
        repn(__lsan_do_recoverable_leak_check());
#else
        repn(0);
#endif
    }
    else if (rq_eq(r, 0, "blocks")) { int c = rq_num(r, 1); reps("ok"); repn(talloc_total_blocks(ctxs[c])); repn(talloc_total_size(ctxs[c])); }
    else if (rq_eq(r, 0, "mem")) { /* bytes on the heap right now; the request and the reply do not count */
        if (r->n > 1) { reply.n = 0; }
#ifdef WITH_LSAN
        repn(__sanitizer_get_current_allocated_bytes());
#else
        repn(mallinfo2().uordblks);
#endif
    }
    else if (rq_eq(r, 0, "report")) { char * t = NULL; size_t tn = 0; FILE * f = open_memstream(&t, &tn); talloc_report_full(ctxs[rq_num(r, 1)], f); fclose(f); rep(t, tn); free(t); }
    else if (rq_eq(r, 0, "vm_set")) { /* vm partials|helpers|data val */
        int v = rq_num(r, 1), x = rq_num(r, 3);
        if (rq_eq(r, 2, "partials")) handlebars_vm_set_partials(vms[v].vm, &vals[x].v);
        else if (rq_eq(r, 2, "helpers")) handlebars_vm_set_helpers(vms[v].vm, &vals[x].v);
        else handlebars_vm_set_data(vms[v].vm, &vals[x].v);
        reps("ok");
    }
    else if (rq_eq(r, 0, "str")) op_str(r);
    else if (rq_eq(r, 0, "map")) op_map(r);
    else if (rq_eq(r, 0, "stk")) op_stk(r);
    else if (rq_eq(r, 0, "vseq")) op_vseq(r);
    else if (rq_eq(r, 0, "own")) op_own(r);
    else if (rq_eq(r, 0, "par")) op_par(r);
    else die("unknown op");
}

/* the same lists of requests, one thread each, several times over: par rounds list... -> replies of the first round, and how often a later one differed */
struct par { char * p; size_t n; long rounds; struct buf first; long differ; struct buf other; };
static pthread_barrier_t par_bar;
static void * par_run(void * a)
{
    struct par * x = a;
    for (long k = 0; k < x->rounds; k++) {
        struct buf got = {0};
        if (k < 3) pthread_barrier_wait(&par_bar);
        for (size_t o = 0; o < x->n;) {
            uint32_t total; memcpy(&total, x->p + o, 4); o += 4;
            struct req q; parsereq(&q, x->p + o, total); o += total;
            reply.n = 0; handle(&q); freereq(&q);
            uint32_t l = reply.n; bput(&got, &l, 4); bput(&got, reply.p, reply.n); reply.n = 0;
        }
        if (k == 0) x->first = got;
        else if (got.n != x->first.n || memcmp(got.p, x->first.p, got.n)) { x->differ++; if (x->other.p) free(got.p); else x->other = got; }
        else free(got.p);
    }
    free(reply.p); free(events.p); free(impl_err); reply.p = events.p = impl_err = NULL; reply.n = events.n = 0;
    return NULL;
}
static void op_par(struct req * r)
{
    int n = r->n - 2; struct par * x = calloc(n, sizeof *x); pthread_t * t = calloc(n, sizeof *t);
    pthread_barrier_init(&par_bar, NULL, n);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 32 << 20);
    for (int i = 0; i < n; i++) { x[i].p = r->p[i + 2]; x[i].n = r->l[i + 2]; x[i].rounds = rq_num(r, 1); if (pthread_create(&t[i], &at, par_run, &x[i])) die("thread"); }
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&par_bar);
    for (int i = 0; i < n; i++) { rep(x[i].first.p ? x[i].first.p : "", x[i].first.n); repn(x[i].differ); rep(x[i].other.p ? x[i].other.p : "", x[i].other.n); free(x[i].first.p); free(x[i].other.p); }
    free(x); free(t);
}

int main(void)
{
    /* the protocol goes to fd 3; anything the library prints stays on stdout/stderr */
    if (dup2(1, 3) < 0) die("dup2");
    dup2(2, 1);
    for (;;) {
        static struct req r; rdreq(&r);
        handle(&r);
        freereq(&r);
        sendreply();
    }
}
