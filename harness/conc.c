/* Several processes or threads use one cache: conc mode seed workers ops keys size slots age profile file
 * mode: proc | thread (shared memory), db (processes, each opens the file), dbkill (the same, some are killed)
 * profile: mix | pure (no VM) | stable (nothing is ever removed) | reset (mostly resets) | hold (long holds)
 * Prints what it saw as "name value" lines, and "FAIL key: text" for every violation. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_ast.h"
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
#include "handlebars_compiler.h"
#include "handlebars_helpers.h"
#include "handlebars_map.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_parser.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_value_private.h"
#include "handlebars_vm.h"
#include "handlebars_vm_private.h"

#ifdef __has_feature
#define TSAN __has_feature(thread_sanitizer)
#else
#define TSAN 0
#endif
#define MAXK 64
#define MAXW 256

struct shared {
    long clock;
    int seen[MAXK];
    long hits[MAXW], misses[MAXW], direct_adds[MAXW], resets[MAXW], renders[MAXW], errors[MAXW], held[MAXW], delays[MAXW], done[MAXW], renderhits[MAXW];
    int nfail; int faillock;
    char fail[16][700]; long refused[MAXW];
    unsigned int last; unsigned char pairs[8192];
    int stop;
};
static struct shared * S;
static __thread uint64_t rng = 88172645463325252ULL;
static __thread int me = 0;
static int hot, intensity;
static unsigned long ra(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned long) (rng >> 11); }
static long rnd(long n) { return (long) (ra() % (unsigned long) n); }

__attribute__((no_sanitize("thread")))
static void failf(const char * key, const char * f, ...)
{
    char t[500]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap);
    int n = __atomic_fetch_add(&S->nfail, 1, __ATOMIC_RELAXED);
    if (n < 16) snprintf(S->fail[n], sizeof S->fail[n], "%s: %s", key, t);
}

/* ---- holding up a thread somewhere ---- */
int __real_usleep(useconds_t us); time_t __real_time(time_t * t);
int __wrap_usleep(useconds_t us) { return __real_usleep(us / 500 + 1); }
time_t __wrap_time(time_t * t) { time_t x = 1000000 + __atomic_load_n(&S->clock, __ATOMIC_RELAXED); if (t) *t = x; return x; }
static void hold_up(unsigned long where)
{
    if (!S || !intensity) return;
    { /* what another one did just before this */
        unsigned p = (unsigned) (where * 2654435761u >> 11) & 255, l = __atomic_exchange_n(&S->last, p | (unsigned) me << 8, __ATOMIC_RELAXED);
        if (l >> 8 != (unsigned) me) { unsigned b = (l & 255) << 8 | p; if (!(__atomic_load_n(&S->pairs[b >> 3], __ATOMIC_RELAXED) >> (b & 7) & 1)) __atomic_fetch_or(&S->pairs[b >> 3], (unsigned char) (1 << (b & 7)), __ATOMIC_RELAXED); } }
    int h = (int) ((where * 2654435761u >> 8) % 61);
    unsigned long x = ra() % 1000;
    if (h == hot && x < 300) { __atomic_fetch_add(&S->delays[me], 1, __ATOMIC_RELAXED); if (x < 40) __real_usleep(1 + (unsigned) (ra() % 400)); else if (x < 150) __real_usleep(1); else sched_yield(); }
    else if (x < (unsigned long) intensity) { __atomic_fetch_add(&S->delays[me], 1, __ATOMIC_RELAXED); if (x & 1) sched_yield(); else for (volatile int i = 0; i < (int) (ra() % 2000); i++) {} }
}
#define RET ((unsigned long) (char *) __builtin_return_address(0) - (unsigned long) (char *) &hold_up)
void __sanitizer_cov_trace_pc(void) { unsigned long w = RET; hold_up(w); }
#define LS(n, t) void __sanitizer_cov_load##n(t * a) { hold_up(RET); } void __sanitizer_cov_store##n(t * a) { hold_up(RET); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, void)
int __real_pthread_spin_lock(pthread_spinlock_t * l); int __real_pthread_spin_unlock(pthread_spinlock_t * l); int __real_mprotect(void * a, size_t n, int p);
int __wrap_pthread_spin_lock(pthread_spinlock_t * l) { hold_up(1); int rc; /* a spinning thread must let the others run */
#if defined(__SANITIZE_THREAD__) || TSAN
    rc = __real_pthread_spin_lock(l);
#else
    while ((rc = pthread_spin_trylock(l)) == EBUSY) sched_yield();
#endif
    hold_up(2); return rc; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t * l) { hold_up(3); int rc = __real_pthread_spin_unlock(l); hold_up(4); return rc; }
int __wrap_mprotect(void * a, size_t n, int p) { hold_up(5); int rc = __real_mprotect(a, n, p); hold_up(6); return rc; }

/* ---- what is cached ---- */
static int nkeys;
static char * tmpl[MAXK], * want[MAXK];
static void mkkeys(uint64_t seed)
{
    rng = seed * 0x9E3779B97F4A7C15ULL + 12345;
    for (int i = 0; i < nkeys; i++) {
        int reps = i % 5 == 4 ? 120 : i % 3 ? 3 : 20; if (rnd(4) == 0) reps = (int) rnd(60);
        size_t cap = 400 + (size_t) reps * 24; tmpl[i] = malloc(cap); want[i] = malloc(cap); char * t = tmpl[i], * w = want[i];
        t += sprintf(t, "<%d:{{a}}", i); w += sprintf(w, "<%d:A", i);
        for (int j = 0; j < reps; j++) { if (j % 3 == 0) { t += sprintf(t, "{{b}}%d;", i); w += sprintf(w, "&lt;%d;", i); } else { t += sprintf(t, "%d.%d,", i, j); w += sprintf(w, "%d.%d,", i, j); } }
        t += sprintf(t, "{{#each l}}{{this}}-%d {{/each}}>", i); w += sprintf(w, "1-%d 2-%d >", i, i);
    }
}

struct worker {
    struct handlebars_context * ctx;
    struct handlebars_cache * cache;
    struct handlebars_vm * vm, * plain;
    struct handlebars_value data, partials, helpers;
    struct handlebars_module * mod[MAXK];
    struct handlebars_string * key[MAXK];
    struct handlebars_module * rend[8]; char * rwant[8];
    struct handlebars_module * bad;
    struct handlebars_context * dbctx; /* of a database cache */
};
static int mode_db, mode_thread, prof_pure, prof_stable, prof_reset, prof_hold, prof_age;

static struct handlebars_module * compile(struct handlebars_context * ctx, const char * t)
{
    struct handlebars_parser * p = handlebars_parser_ctor(ctx);
    struct handlebars_ast_node * ast = handlebars_parse_ex(p, handlebars_string_ctor(HBSCTX(p), t, strlen(t)), 0);
    struct handlebars_compiler * c = handlebars_compiler_ctor(ctx);
    struct handlebars_program * prog = handlebars_compiler_compile_ex(c, ast);
    struct handlebars_module * m = handlebars_program_serialize(ctx, prog);
    handlebars_parser_dtor(p); handlebars_compiler_dtor(c);
    return m;
}
static struct handlebars_value * h_boom(HANDLEBARS_HELPER_ARGS) { handlebars_throw(HBSCTX(vm), HANDLEBARS_ERROR, "boom"); }
static struct handlebars_value * h_wait(HANDLEBARS_HELPER_ARGS) { sched_yield(); if (rnd(4) == 0) __real_usleep(1 + (unsigned) rnd(200)); return rv; }
static void put(struct handlebars_context * ctx, struct handlebars_map ** m, const char * k, struct handlebars_value * v) { *m = handlebars_map_str_update(*m, k, strlen(k), v); }

static void setup(struct worker * w, struct handlebars_context * ctx, struct handlebars_cache * cache)
{
    memset(w, 0, sizeof *w); w->ctx = ctx; w->cache = cache;
    handlebars_value_init(&w->data); handlebars_value_init(&w->partials); handlebars_value_init(&w->helpers);
    { HANDLEBARS_VALUE_DECL(v); struct handlebars_map * m = handlebars_map_ctor(ctx, 4);
      handlebars_value_str(v, handlebars_string_ctor(ctx, "A", 1)); put(ctx, &m, "a", v); handlebars_value_str(v, handlebars_string_ctor(ctx, "<", 1)); put(ctx, &m, "b", v);
      struct handlebars_stack * st = handlebars_stack_ctor(ctx, 2); HANDLEBARS_VALUE_DECL(e); handlebars_value_integer(e, 1); st = handlebars_stack_push(st, e); handlebars_value_integer(e, 2); st = handlebars_stack_push(st, e);
      handlebars_value_array(v, st); put(ctx, &m, "l", v); HANDLEBARS_VALUE_UNDECL(e);
      handlebars_value_map(&w->data, m); HANDLEBARS_VALUE_UNDECL(v); }
    { HANDLEBARS_VALUE_DECL(v); struct handlebars_map * m = handlebars_map_ctor(ctx, 8); char n[20];
      for (int i = 0; i < nkeys; i++) { w->key[i] = handlebars_string_ctor(ctx, tmpl[i], strlen(tmpl[i])); handlebars_string_addref(w->key[i]);
          handlebars_value_str(v, handlebars_string_ctor(ctx, tmpl[i], strlen(tmpl[i]))); sprintf(n, "p%d", i); put(ctx, &m, n, v); }
      handlebars_value_str(v, handlebars_string_ctor(ctx, HBS_STRL("{{> p0}}{{wait}}{{> p1}}"))); put(ctx, &m, "nest", v);
      handlebars_value_str(v, handlebars_string_ctor(ctx, HBS_STRL("{{> nest}}{{#each l}}{{boom}}{{/each}}"))); put(ctx, &m, "bad", v);
      handlebars_value_map(&w->partials, m); HANDLEBARS_VALUE_UNDECL(v); }
    { HANDLEBARS_VALUE_DECL(v); struct handlebars_map * m = handlebars_map_ctor(ctx, 2); handlebars_value_helper(v, h_boom); put(ctx, &m, "boom", v); handlebars_value_helper(v, h_wait); put(ctx, &m, "wait", v); handlebars_value_map(&w->helpers, m); HANDLEBARS_VALUE_UNDECL(v); }
    w->vm = handlebars_vm_ctor(ctx); w->plain = handlebars_vm_ctor(ctx);
    handlebars_vm_set_partials(w->vm, &w->partials); handlebars_vm_set_helpers(w->vm, &w->helpers); handlebars_vm_set_cache(w->vm, cache);
    for (int i = 0; i < nkeys; i++) w->mod[i] = compile(ctx, tmpl[i]);
    for (int i = 0; i < 8; i++) {
        char t[300] = "", * wt = calloc(1, 40000); for (int j = 0, n = 1 + (int) rnd(4); j < n; j++) { int k = (int) rnd(nkeys); sprintf(t + strlen(t), "{{> p%d}}{{wait}}|", k); sprintf(wt + strlen(wt), "%s|", want[k]); }
        if (i % 2) { strcat(t, "{{> nest}}"); strcat(wt, want[0]); strcat(wt, want[1 % nkeys]); }
        w->rend[i] = compile(ctx, t); w->rwant[i] = wt;
    }
    w->bad = compile(ctx, "{{> bad}}");
}

static bool same(struct worker * w, struct handlebars_module * m, const char * expect, struct handlebars_vm * vm, const char * key, int i)
{
    struct handlebars_string * out = handlebars_vm_execute(vm, m, &w->data);
    bool ok = out && hbs_str_len(out) == strlen(expect) && !memcmp(hbs_str_val(out), expect, strlen(expect));
    if (!ok) failf(key, "key %d: expected %.100s got %.150s (error %d %.100s)", i, expect, out ? hbs_str_val(out) : "nothing", handlebars_error_num(w->ctx), out ? "" : handlebars_error_msg(w->ctx));
    if (out) handlebars_talloc_free(out);
    return ok;
}

/* Cleaning up takes room in a database; when others are reading all of the old pages it may have to report that */
static void admin(struct worker * w, bool all)
{
    jmp_buf buf, * prev = w->dbctx ? w->dbctx->e->jmp : NULL;
    if (w->dbctx && handlebars_setjmp_ex(w->dbctx, &buf)) {
        if (!strstr(handlebars_error_msg(w->dbctx), "MDB_MAP_FULL")) failf("error of the cache", "%s: %.200s", all ? "reset" : "gc", handlebars_error_msg(w->dbctx));
        S->refused[me]++;
    } else if (all) { handlebars_cache_reset(w->cache); S->resets[me]++; } else (void) handlebars_cache_gc(w->cache);
    if (w->dbctx) w->dbctx->e->jmp = prev;
}

static void one(struct worker * w)
{
    int i = (int) rnd(nkeys); long x = rnd(1000);
    long p_find = 450, p_add = 250, p_render = prof_pure || prof_stable ? 0 : 150, p_err = prof_pure || prof_stable ? 0 : 30, p_reset = prof_stable ? 0 : prof_reset ? 60 : prof_pure ? 2 : 6, p_gc = 10, p_stat = 15, p_age = prof_age ? 25 : 0;
    if ((x -= p_find) < 0) {
        int was = prof_stable ? __atomic_load_n(&S->seen[i], __ATOMIC_RELAXED) : 0;
        struct handlebars_module * m = handlebars_cache_find(w->cache, w->key[i]);
        if (!m) { S->misses[me]++; if (was) failf("entry not found", "key %d had been found before", i); return; }
        S->hits[me]++; __atomic_store_n(&S->seen[i], 1, __ATOMIC_RELAXED);
        size_t n = w->mod[i]->size;
        if (m->size != n) failf("wrong entry", "key %d: %zu bytes, expected %zu", i, m->size, n);
        else {
            char * copy = malloc(n); memcpy(copy, m, n);
            same(w, m, want[i], w->plain, "wrong entry", i);
            if (prof_hold || rnd(3) == 0) { S->held[me]++; for (int k = 0, e = 1 + (int) rnd(prof_hold ? 30 : 4); k < e; k++) { if (rnd(3) == 0) __real_usleep(1 + (unsigned) rnd(100)); else sched_yield(); } same(w, m, want[i], w->plain, "entry changed while in use", i); }
            if (memcmp(copy, m, n)) failf("entry changed while in use", "key %d", i);
            free(copy);
        }
        handlebars_cache_release(w->cache, w->key[i], m);
    } else if ((x -= p_add) < 0) {
        time(&w->mod[i]->ts);
        handlebars_cache_add(w->cache, w->key[i], w->mod[i]); S->direct_adds[me]++;
    } else if ((x -= p_render) < 0) { int k = (int) rnd(8); S->renders[me]++; same(w, w->rend[k], w->rwant[k], w->vm, "rendering differs", k); }
    else if ((x -= p_err) < 0) {
        struct handlebars_string * out = handlebars_vm_execute(w->vm, w->bad, &w->data); S->errors[me]++;
        if (out) failf("error lost", "%.100s", hbs_str_val(out));
        else { if (!handlebars_error_msg(w->ctx) || !strstr(handlebars_error_msg(w->ctx), "boom")) failf("error differs", "%d %.100s", handlebars_error_num(w->ctx), handlebars_error_msg(w->ctx) ? handlebars_error_msg(w->ctx) : "(null)"); w->ctx->e->num = 0; w->ctx->e->msg = NULL; }
    }
    else if ((x -= p_reset) < 0) admin(w, true);
    else if ((x -= p_gc) < 0) admin(w, false);
    else if ((x -= p_stat) < 0) { struct handlebars_cache_stat t = handlebars_cache_stat(w->cache); if (!mode_db && (t.current_entries > t.total_entries || t.current_data_size > t.total_data_size || t.refcount > MAXW * 4)) failf("impossible statistics", "entries %zu of %zu, data %zu of %zu, refcount %zu", t.current_entries, t.total_entries, t.current_data_size, t.total_data_size, t.refcount); }
    else if ((x -= p_age) < 0) __atomic_fetch_add(&S->clock, 1 + rnd(8), __ATOMIC_RELAXED);
}

static long ops; static uint64_t base_seed; static double max_age = -1; static char * file;
static struct handlebars_cache * shared_cache; static struct handlebars_context * shared_ctx;
static pthread_barrier_t bar;

static void work(int id, bool forever)
{
    me = id; rng = (base_seed * 1000003 + (uint64_t) id + 1) * 0x9E3779B97F4A7C15ULL; if (forever) rng ^= (uint64_t) getpid() << 20; ra(); ra();
    struct handlebars_context * ctx = handlebars_context_ctor(); struct worker * w = calloc(1, sizeof *w);
    jmp_buf buf;
    if (handlebars_setjmp_ex(ctx, &buf)) { failf("error", "%d %.200s", handlebars_error_num(ctx), handlebars_error_msg(ctx)); goto out; }
    struct handlebars_cache * cache = shared_cache;
    struct handlebars_context * dbctx = NULL;
    if (mode_db) { /* its errors go to its own context, those of the VM come back as results */
        dbctx = handlebars_context_ctor(); if (handlebars_setjmp_ex(dbctx, &buf)) { failf("error of the cache", "%d %.200s", handlebars_error_num(dbctx), handlebars_error_msg(dbctx)); goto out; }
        cache = handlebars_cache_lmdb_ctor(dbctx, file); cache->max_age = max_age; }
    setup(w, ctx, cache); w->dbctx = dbctx;
    if (mode_thread) pthread_barrier_wait(&bar);
    for (long k = 0; (forever || k < ops) && !__atomic_load_n(&S->stop, __ATOMIC_RELAXED); k++) { ctx->e->jmp = NULL; one(w); __atomic_store_n(&S->done[me], S->done[me] + 1, __ATOMIC_RELAXED); }
out:
    if (dbctx) handlebars_context_dtor(dbctx);
    handlebars_context_dtor(ctx); free(w);
}
static void * thread_main(void * a) { work((int) (long) a, false); return NULL; }

static void finish(int n)
{
    /* everybody is done */
    me = MAXW - 1; intensity = 0;
    struct handlebars_context * ctx = handlebars_context_ctor(); struct worker * w = calloc(1, sizeof *w);
    jmp_buf buf;
    if (handlebars_setjmp_ex(ctx, &buf)) { failf("error", "at the end: %d %.200s", handlebars_error_num(ctx), handlebars_error_msg(ctx)); return; }
    struct handlebars_cache * c = shared_cache;
    if (mode_db) { c = handlebars_cache_lmdb_ctor(ctx, file); }
    setup(w, ctx, c);
    ctx->e->jmp = mode_db ? &buf : NULL;
    struct handlebars_cache_stat t = handlebars_cache_stat(c);
    long hits = 0, misses = 0, resets = 0; for (int i = 0; i < MAXW; i++) { hits += S->hits[i]; misses += S->misses[i]; resets += S->resets[i]; }
    if (!mode_db) {
        printf("entries %zu\ncollisions %zu\n", t.current_entries, t.collisions);
        if (t.refcount) failf("reference lost", "%zu references, nobody uses the cache", t.refcount);
        if (prof_pure || prof_stable) {
            if ((long) t.hits != hits) failf("statistics", "%zu hits, %ld happened", t.hits, hits);
            if ((long) t.misses > misses || (prof_stable && (long) t.misses != misses)) failf("statistics", "%zu misses, %ld happened", t.misses, misses);
        }
    }
    c->max_age = -1;
    size_t found = 0;
    for (int i = 0; i < nkeys; i++) { struct handlebars_module * m = handlebars_cache_find(c, w->key[i]); if (m) { found++; same(w, m, want[i], w->plain, "wrong entry at the end", i); handlebars_cache_release(c, w->key[i], m); } }
    printf("found at the end %zu\n", found);
    if (!mode_db && (prof_pure || prof_stable) && found != t.current_entries) failf("statistics", "%zu entries, %zu can be found", t.current_entries, found);
    handlebars_cache_reset(c); t = handlebars_cache_stat(c);
    if (t.current_entries || (!mode_db && t.current_data_size)) failf("reset does nothing", "%zu entries", t.current_entries);
    size_t stored = 0;
    for (int i = 0; i < nkeys; i++) {
        struct handlebars_cache_stat b = handlebars_cache_stat(c); time(&w->mod[i]->ts); handlebars_cache_add(c, w->key[i], w->mod[i]); struct handlebars_cache_stat a = handlebars_cache_stat(c);
        struct handlebars_module * m = handlebars_cache_find(c, w->key[i]);
        if (a.current_entries == b.current_entries + 1) { stored++; if (!m) failf("cache unusable", "key %d was added, but is not there", i); }
        if (i == 0 && !m && !(t.total_data_size && t.total_data_size < w->mod[i]->size + strlen(tmpl[i]) + 300)) failf("cache unusable", "key 0 can't be added to the empty cache");
        if (m) { same(w, m, want[i], w->plain, "wrong entry at the end", i); handlebars_cache_release(c, w->key[i], m); }
    }
    printf("stored at the end %zu\n", stored);
    handlebars_context_dtor(ctx); free(w);
}

static pid_t kids[MAXW];
static int nw;
static int ticks, stuck; static long last;
static void on_alarm(int s)
{
    (void) s; long n = 0; for (int i = 0; i < MAXW; i++) n += __atomic_load_n(&S->done[i], __ATOMIC_RELAXED);
    stuck = n == last ? stuck + 1 : 0; last = n;
    if (stuck < 4 && ++ticks < 20) { alarm(15); return; }
    for (int i = 0; i < nw; i++) if (kids[i] > 0) kill(kids[i], SIGKILL);
    static const char m[] = "FAIL deadlock: nobody gets any further\n", m2[] = "slow 1\n"; if (stuck < 4) { (void) !write(1, m2, sizeof m2 - 1); _exit(4); } (void) !write(1, m, sizeof m - 1); _exit(3); }

int main(int argc, char ** argv)
{
    if (argc < 12) return 2;
    const char * mode = argv[1], * prof = argv[9]; base_seed = strtoull(argv[2], NULL, 10); nw = atoi(argv[3]); ops = atol(argv[4]); nkeys = atoi(argv[5]); size_t size = strtoul(argv[6], NULL, 10), slots = strtoul(argv[7], NULL, 10); max_age = atof(argv[8]); file = argv[10]; intensity = atoi(argv[11]);
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(S, 0, sizeof *S);
    bool dbkill = !strcmp(mode, "dbkill"); mode_db = dbkill || !strcmp(mode, "db"); mode_thread = !strcmp(mode, "thread");
    prof_pure = !strcmp(prof, "pure"); prof_stable = !strcmp(prof, "stable"); prof_reset = !strcmp(prof, "reset"); prof_hold = !strcmp(prof, "hold"); prof_age = max_age >= 0;
    mkkeys(base_seed); hot = (int) rnd(61);
    signal(SIGALRM, on_alarm); alarm(15);
    int keep = intensity; intensity = 0;
    if (!mode_db) { shared_ctx = handlebars_context_ctor(); shared_cache = handlebars_cache_mmap_ctor(shared_ctx, size, slots); shared_cache->max_age = max_age; }
    intensity = keep;
    if (mode_thread) {
        pthread_barrier_init(&bar, NULL, nw); pthread_t t[MAXW];
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
        for (int i = 0; i < nw; i++) pthread_create(&t[i], &at, thread_main, (void *) (long) i);
        for (int i = 0; i < nw; i++) pthread_join(t[i], NULL);
    } else {
        fflush(stdout);
        for (int i = 0; i < nw; i++) if (!(kids[i] = fork())) { alarm(0); work(i, dbkill); fflush(stdout); _exit(0); }
        if (dbkill) {
            for (long k = 0; k < ops; k++) { __real_usleep(200 + (unsigned) rnd(6000)); int i = (int) rnd(nw); kill(kids[i], SIGKILL); int st; waitpid(kids[i], &st, 0); if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) failf("crash", "a process ended by itself: %x", st);
                if (!(kids[i] = fork())) { alarm(0); work(i, true); _exit(0); } }
            S->stop = 1;
        }
        for (int i = 0; i < nw; i++) { int st; waitpid(kids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) failf("crash", "a process ended with %s %d", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); kids[i] = 0; }
    }
    finish(nw);
    long v[10] = {0}; const char * nm[] = { "hits", "misses", "added", "resets", "renders", "errors", "held", "delays", "operations", "refused" };
    for (int i = 0; i < MAXW; i++) { v[0] += S->hits[i]; v[1] += S->misses[i]; v[2] += S->direct_adds[i]; v[3] += S->resets[i]; v[4] += S->renders[i]; v[5] += S->errors[i]; v[6] += S->held[i]; v[7] += S->delays[i]; v[8] += S->done[i]; v[9] += S->refused[i]; }
    for (int i = 0; i < 10; i++) printf("%s %ld\n", nm[i], v[i]);
    printf("pairs "); for (int i = 0; i < 8192; i++) printf("%02x", S->pairs[i]); printf("\n");
    for (int i = 0; i < S->nfail && i < 16; i++) printf("FAIL %s\n", S->fail[i]);
    return S->nfail ? 1 : 0;
}
