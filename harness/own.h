/* Ownership: user-defined values, pointers and closures whose destruction is recorded.
 * 8 slots, a script of operations; for every line the result and the objects that were destroyed by it. */
#define OWNMAX 400
static __thread int own_dead[OWNMAX]; /* times destroyed */
static __thread int own_seen[OWNMAX]; /* times reported */
static __thread struct handlebars_value own_slot[8];
static __thread struct handlebars_vm * own_vm;

struct own_user { struct handlebars_user user; int id; struct handlebars_value inner; };
#define OWNU(v) ((struct own_user *) handlebars_value_get_user(v))

static struct handlebars_value * own_copy(struct handlebars_value * v) { (void) v; die("own_copy"); return NULL; }
static void own_dtor(struct handlebars_user * user) { struct own_user * u = (void *) user; own_dead[u->id]++; handlebars_value_dtor(&u->inner); }
static void own_convert(struct handlebars_value * value, bool recurse)
{
    HANDLEBARS_VALUE_DECL(t);
    handlebars_value_value(t, &OWNU(value)->inner);
    if (recurse) handlebars_value_convert_ex(t, recurse);
    handlebars_value_value(value, t);
    HANDLEBARS_VALUE_UNDECL(t);
}
static enum handlebars_value_type own_type(struct handlebars_value * v) { return handlebars_value_get_type(&OWNU(v)->inner); }
static struct handlebars_value * own_map_find(struct handlebars_value * v, struct handlebars_string * k, struct handlebars_value * rv) { return handlebars_value_map_find(&OWNU(v)->inner, k, rv); }
static struct handlebars_value * own_array_find(struct handlebars_value * v, size_t i, struct handlebars_value * rv) { return handlebars_value_array_find(&OWNU(v)->inner, i, rv); }
static long own_count(struct handlebars_value * v) { return handlebars_value_count(&OWNU(v)->inner); }
static bool own_void(struct handlebars_value_iterator * it) { (void) it; return false; }
static void own_show(struct handlebars_value_iterator * it, struct handlebars_value_iterator * in)
{
    it->index = in->index;
    if (in->key) { it->key = in->key; handlebars_string_addref(it->key); } else it->key = NULL;
    handlebars_value_value(it->cur, in->cur);
}
static bool own_next(struct handlebars_value_iterator * it)
{
    struct handlebars_value_iterator * in = it->usr;
    if (it->key) handlebars_string_delref(it->key);
    it->key = NULL;
    if (!handlebars_value_iterator_next(in)) { talloc_free(in); it->usr = NULL; it->next = own_void; handlebars_value_dtor(it->cur); return false; }
    own_show(it, in);
    return true;
}
static bool own_iterator(struct handlebars_value_iterator * it, struct handlebars_value * v)
{
    struct handlebars_value_iterator * in = talloc_zero_size(NULL, HANDLEBARS_VALUE_ITERATOR_SIZE + HANDLEBARS_VALUE_SIZE);
    if (!handlebars_value_iterator_init(in, &OWNU(v)->inner)) { talloc_free(in); it->next = own_void; return false; }
    it->value = v; it->usr = in; it->next = own_next;
    own_show(it, in);
    return true;
}
static const struct handlebars_value_handlers own_handlers = {
    "own", own_copy, own_dtor, own_convert, own_type, own_map_find, own_array_find, own_iterator, NULL, own_count,
};

struct own_mark { int id; };
static int own_mark_dtor(struct own_mark * m) { own_dead[m->id]++; return 0; }
/* closures have no destruction hook of their own: a pointer object among the captured values dies with them */
static void own_ptr(struct handlebars_context * ctx, struct handlebars_value * v, int id)
{
    struct own_mark * m = talloc(NULL, struct own_mark); m->id = id; talloc_set_destructor(m, own_mark_dtor);
    handlebars_value_ptr(v, handlebars_ptr_ctor_ex(ctx, "own", m, false));
}

/* captured: kind, a, b, mark */
HANDLEBARS_CLOSURE_ATTRS
static struct handlebars_value * own_fn(HANDLEBARS_CLOSURE_ARGS)
{
    int kind = handlebars_value_get_intval(&localv[0]); (void) localc;
    switch (kind & 15) {
    case 0: if (argc) handlebars_value_value(rv, &argv[0]); return rv;
    case 1: handlebars_value_value(rv, &localv[1]); return rv;
    case 2: if (options->program >= 0) handlebars_value_str(rv, handlebars_vm_execute_program(vm, options->program, &localv[1])); return rv;
    case 3: {
        struct handlebars_stack * s = handlebars_stack_ctor(HBSCTX(vm), argc);
        for (int i = 0; i < argc; i++) s = handlebars_stack_push(s, &argv[i]);
        s = handlebars_stack_push(s, &localv[1]); s = handlebars_stack_push(s, &localv[2]);
        handlebars_value_array(rv, s); return rv; }
    case 4: handlebars_value_value(rv, options->scope); return rv;
    case 5: { /* block parameters and data of its own */
        if (options->program < 0) return rv;
        HANDLEBARS_VALUE_DECL(bp); HANDLEBARS_VALUE_DECL(d);
        struct handlebars_stack * s = handlebars_stack_ctor(HBSCTX(vm), 2);
        s = handlebars_stack_push(s, argc ? &argv[0] : &localv[1]); s = handlebars_stack_push(s, &localv[2]);
        handlebars_value_array(bp, s);
        struct handlebars_map * m = handlebars_map_ctor(HBSCTX(vm), 2);
        m = handlebars_map_str_update(m, HBS_STRL("own"), &localv[2]);
        handlebars_value_map(d, m);
        handlebars_value_str(rv, handlebars_vm_execute_program_ex(vm, options->program, argc ? &argv[0] : options->scope, d, bp));
        HANDLEBARS_VALUE_UNDECL(d); HANDLEBARS_VALUE_UNDECL(bp);
        return rv; }
    case 6: { /* keeps what it is given, if that cannot contain text of the template, which goes with the module */
        enum handlebars_value_type t = argc ? handlebars_value_get_real_type(&argv[0]) : HANDLEBARS_VALUE_TYPE_NULL;
        if (t == HANDLEBARS_VALUE_TYPE_USER || t == HANDLEBARS_VALUE_TYPE_PTR || t == HANDLEBARS_VALUE_TYPE_CLOSURE) handlebars_value_value(&own_slot[kind >> 4], &argv[0]);
        return rv; }
    case 7: { HANDLEBARS_VALUE_DECL(t); struct handlebars_value * f = argc && handlebars_value_get_type(&argv[0]) == HANDLEBARS_VALUE_TYPE_ARRAY ? handlebars_value_array_find(&argv[0], 0, t) : NULL; if (f) handlebars_value_value(rv, f); HANDLEBARS_VALUE_UNDECL(t); return rv; }
    case 8: { HANDLEBARS_VALUE_DECL(t); struct handlebars_value * f = handlebars_value_map_str_find(options->hash, HBS_STRL("x"), t); if (f) handlebars_value_value(rv, f); HANDLEBARS_VALUE_UNDECL(t); return rv; }
    default: if (options->inverse >= 0) handlebars_value_str(rv, handlebars_vm_execute_program(vm, options->inverse, options->scope)); return rv;
    }
}

static struct handlebars_string * own_render(struct handlebars_module * m, struct handlebars_vm * vm, unsigned long flags, struct handlebars_value * data, struct handlebars_value * partials, struct handlebars_value * helpers, struct handlebars_value * atdata)
{
    handlebars_vm_set_flags(vm, flags);
    handlebars_vm_set_partials(vm, partials);
    handlebars_vm_set_helpers(vm, helpers);
    if (atdata) handlebars_vm_set_data(vm, atdata);
    return handlebars_vm_execute(vm, m, data);
}

static void own_op(struct handlebars_context * ctx, char * line, struct buf * o)
{
    static __thread char tmp[16384];
    char * sp = NULL, * tok = strtok_r(line, " ", &sp); char op[16]; snprintf(op, sizeof op, "%s", tok);
    NEXT(); struct handlebars_value * v = &own_slot[atoi(tok)];
#define NUM() ({ NEXT(); atol(tok); })
#define SLOT() (&own_slot[NUM()])
    HANDLEBARS_VALUE_DECL(rv);
    if (!strcmp(op, "user")) {
        int id = NUM(); struct handlebars_value * w = SLOT();
        struct own_user * u = handlebars_talloc_zero(ctx, struct own_user);
        handlebars_user_init(&u->user, ctx, &own_handlers); u->id = id; handlebars_value_init(&u->inner); handlebars_value_value(&u->inner, w);
        handlebars_value_user(v, &u->user);
    } else if (!strcmp(op, "ptr")) { int id = NUM(); own_ptr(ctx, v, id); }
    else if (!strcmp(op, "clo")) {
        HANDLEBARS_VALUE_ARRAY_DECL(l, 4);
        int id = NUM(); handlebars_value_integer(&l[0], NUM()); handlebars_value_value(&l[1], SLOT()); handlebars_value_value(&l[2], SLOT()); own_ptr(ctx, &l[3], id);
        handlebars_value_closure(v, handlebars_closure_ctor(own_vm, own_fn, 4, l));
        HANDLEBARS_VALUE_ARRAY_UNDECL(l, 4);
    }
    else if (!strcmp(op, "int")) handlebars_value_integer(v, NUM());
    else if (!strcmp(op, "str")) { NEXT(); size_t n = unhex(tok, tmp); handlebars_value_str(v, mkstr(ctx, tmp, n)); }
    else if (!strcmp(op, "bool")) handlebars_value_boolean(v, NUM());
    else if (!strcmp(op, "arr")) handlebars_value_array(v, handlebars_stack_ctor(ctx, NUM()));
    else if (!strcmp(op, "map")) handlebars_value_map(v, handlebars_map_ctor(ctx, NUM()));
    else if (!strcmp(op, "cp")) handlebars_value_value(v, SLOT());
    else if (!strcmp(op, "null")) handlebars_value_null(v);
    else if (!strcmp(op, "dtor")) handlebars_value_dtor(v);
    else if (!strcmp(op, "push")) handlebars_value_array_push(v, SLOT());
    else if (!strcmp(op, "aset")) { long ix = NUM(); handlebars_value_array_set(v, ix, SLOT()); }
    else if (!strcmp(op, "upd")) { NEXT(); size_t n = unhex(tok, tmp); struct handlebars_string * k = mkstr(ctx, tmp, n); handlebars_value_map_update(v, k, SLOT()); }
    else if (!strcmp(op, "rem")) { NEXT(); size_t n = unhex(tok, tmp); v->v.map = handlebars_map_str_remove(v->v.map, tmp, n); }
    else if (!strcmp(op, "find")) { NEXT(); size_t n = unhex(tok, tmp); struct handlebars_value * f = handlebars_value_map_str_find(v, tmp, n, rv), * d = SLOT(); if (f) handlebars_value_value(d, f); }
    else if (!strcmp(op, "get")) { long ix = NUM(); struct handlebars_value * f = handlebars_value_array_find(v, ix, rv), * d = SLOT(); if (f) handlebars_value_value(d, f); }
    else if (!strcmp(op, "each")) { struct handlebars_value * d = SLOT(); handlebars_value_array(d, handlebars_stack_ctor(ctx, 0)); HANDLEBARS_VALUE_FOREACH(v, c) { handlebars_value_array_push(d, c); } HANDLEBARS_VALUE_FOREACH_END(); }
    else if (!strcmp(op, "conv")) handlebars_value_convert_ex(v, NUM());
    else if (!strcmp(op, "real")) bfmt(o, "%d", handlebars_value_get_real_type(v));
    else if (!strcmp(op, "enc")) { struct buf e = {0}; encv(&e, v, 0); hexout(o, e.p, e.n); free(e.p); }
    else if (!strcmp(op, "count")) bfmt(o, "%ld", handlebars_value_count(v));
    else if (!strcmp(op, "expr")) { struct handlebars_string * s = handlebars_value_expression(ctx, v, NUM()); hexout(o, hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); }
    else if (!strcmp(op, "test")) bfmt(o, "%d%d%d", handlebars_value_get_boolval(v), handlebars_value_is_empty(v), handlebars_value_is_callable(v));
    else if (!strcmp(op, "eq")) bfmt(o, "%d", handlebars_value_eq(v, SLOT()));
    else if (!strcmp(op, "call")) { /* closure dest arg arg */
        HANDLEBARS_VALUE_ARRAY_DECL(a, 2); HANDLEBARS_VALUE_DECL(h); HANDLEBARS_VALUE_DECL(sc); HANDLEBARS_VALUE_DECL(da);
        struct handlebars_value * d = SLOT(); handlebars_value_value(&a[0], SLOT()); handlebars_value_value(&a[1], SLOT()); handlebars_value_value(sc, SLOT());
        struct handlebars_options opt = { .inverse = -1, .program = -1, .name = mkstr(ctx, "n", 1), .scope = sc, .data = da, .hash = h };
        handlebars_string_addref(opt.name);
        handlebars_value_map(h, handlebars_map_ctor(ctx, 0));
        handlebars_value_map(da, handlebars_map_ctor(ctx, 0));
        struct handlebars_value * x = handlebars_value_call(v, 2, a, &opt, own_vm, rv);
        handlebars_value_value(d, x);
        handlebars_string_delref(opt.name);
        HANDLEBARS_VALUE_UNDECL(da); HANDLEBARS_VALUE_UNDECL(sc); HANDLEBARS_VALUE_UNDECL(h); HANDLEBARS_VALUE_ARRAY_UNDECL(a, 2);
    }
    else if (!strcmp(op, "render")) { /* context flags partials|-1 helpers|-1 data|-1 template */
        unsigned long flags = NUM(); long p = NUM(), h = NUM(), da = NUM(); NEXT(); size_t n = unhex(tok, tmp);
        /* what is left in the context when all that was made here is gone again */
        size_t b0 = talloc_total_blocks(ctx), b1;
        struct handlebars_module * m = compile(ctx, tmp, n, flags, NULL);
        b1 = talloc_total_blocks(ctx);
        struct handlebars_vm * vm = handlebars_vm_ctor(ctx);
        HANDLEBARS_VALUE_DECL(none); HANDLEBARS_VALUE_DECL(c);
        if (h < 0 || p < 0) handlebars_value_map(none, handlebars_map_ctor(ctx, 0));
        handlebars_value_value(c, v);
        jmp_buf jb; struct handlebars_context * vc = HBSCTX(vm); jmp_buf * prev = vc->e->jmp; bool bad = false;
        vc->e->jmp = &jb;
        if (setjmp(jb) == 0) { struct handlebars_string * s = own_render(m, vm, flags, c, p < 0 ? none : &own_slot[p], h < 0 ? none : &own_slot[h], da < 0 ? NULL : &own_slot[da]); hexout(o, hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); }
        else { bad = true; bstr(o, "E:"); hexout(o, handlebars_error_msg(vc), strlen(handlebars_error_msg(vc))); }
        vc->e->jmp = prev; if (bad) { memset(&vc->e->loc, 0, sizeof vc->e->loc); vc->e->num = 0; vc->e->msg = NULL; }
        HANDLEBARS_VALUE_UNDECL(c); HANDLEBARS_VALUE_UNDECL(none);
        handlebars_vm_dtor(vm);
        if (!bad) bfmt(o, " left %ld", (long) talloc_total_blocks(ctx) - (long) b1);
        talloc_free(m);
        if (!bad) bfmt(o, " %ld", (long) talloc_total_blocks(ctx) - (long) b0);
    }
    else die("own op");
    HANDLEBARS_VALUE_UNDECL(rv);
}

static void op_own(struct req * r) /* own script -> per line: result, ids destroyed (id*times if not once) */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    memset(own_dead, 0, sizeof own_dead); memset(own_seen, 0, sizeof own_seen);
    own_vm = handlebars_vm_ctor(ctx);
    for (int i = 0; i < 8; i++) handlebars_value_init(&own_slot[i]);
    static __thread struct buf o; o.n = 0; char * script = rq_cstr(r, 1), * lp = NULL, * line = strtok_r(script, "\n", &lp);
    for (int last = 0; ; line = strtok_r(NULL, "\n", &lp)) {
        if (line) { TRY(ctx) own_op(ctx, line, &o); CATCH bfmt(&o, "E:%d", handlebars_error_num(ctx)); ENDTRY }
        else { for (int i = 0; i < 8; i++) handlebars_value_dtor(&own_slot[i]); last = 1; }
        bstr(&o, " |");
        for (int i = 0; i < OWNMAX; i++) if (own_dead[i] != own_seen[i]) { bfmt(&o, own_dead[i] == 1 ? " %d" : " %d*%d", i, own_dead[i]); own_seen[i] = own_dead[i]; }
        bstr(&o, "\n");
        if (last) break;
    }
    rep(o.p ? o.p : "", o.n);
    free(script);
    handlebars_vm_dtor(own_vm);
    handlebars_context_dtor(ctx);
}
