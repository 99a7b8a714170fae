/* Containers, strings and values driven by scripts.  Every op's observable result is reported. */

static struct handlebars_string * mkstr(struct handlebars_context * ctx, const char * p, size_t n) { return handlebars_string_ctor(ctx, p, n); }

/* str <fn> <share> <string> <arg...>: share=1: a second reference is held and must keep its bytes.
 * prehash=1 (share&2): the hash is computed before the operation, so a stale cached hash is seen. */
static void op_str(struct req * r)
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    const char * f = rq_cstr(r, 1);
    int share = rq_num(r, 2) & 1, prehash = rq_num(r, 2) & 2;
    TRY(ctx)
        struct handlebars_string * s = mkstr(ctx, r->p[3], r->l[3]), * o = NULL, * keep = s;
        handlebars_string_addref(s);
        if (share) handlebars_string_addref(s);
        if (prehash) (void) hbs_str_hash(s);
        const char * a = r->n > 4 ? r->p[4] : NULL; size_t al = r->n > 4 ? r->l[4] : 0;
        const char * b = r->n > 5 ? r->p[5] : NULL; size_t bl = r->n > 5 ? r->l[5] : 0;
        long num = 0; bool isnum = false, consumed = true; const char * txt = NULL;
        if (!strcmp(f, "append")) o = handlebars_string_append(ctx, s, a, al);
        else if (!strcmp(f, "append_str")) o = handlebars_string_append_str(ctx, s, mkstr(ctx, a, al));
        else if (!strcmp(f, "append_self")) o = handlebars_string_append_str(ctx, s, handlebars_string_copy_ctor(ctx, s));
        else if (!strcmp(f, "asprintf_append")) { char * t = rq_cstr(r, 4); o = handlebars_string_asprintf_append(ctx, s, "%s|%d", t, 42); free(t); }
        else if (!strcmp(f, "extend")) o = handlebars_string_extend(ctx, s, rq_num(r, 4));
        else if (!strcmp(f, "compact")) { o = handlebars_string_extend(ctx, s, hbs_str_len(s) + 100); o = handlebars_string_compact(o); }
        else if (!strcmp(f, "truncate")) o = handlebars_string_truncate(s, rq_num(r, 4), rq_num(r, 5));
        else if (!strcmp(f, "ltrim")) o = handlebars_string_ltrim(s, a, al);
        else if (!strcmp(f, "rtrim")) o = handlebars_string_rtrim(s, a, al);
        else if (!strcmp(f, "reduce")) o = handlebars_str_reduce(s, a, al, b, bl);
        else if (!strcmp(f, "stripcslashes")) o = handlebars_string_stripcslashes(s);
        else if (!strcmp(f, "esc_append")) o = handlebars_string_htmlspecialchars_append(ctx, s, a, al);
        else {
            consumed = false;
            if (!strcmp(f, "replace")) { o = handlebars_str_replace(ctx, s, a, al, b, bl); if (o == s) handlebars_string_addref(o); }
            else if (!strcmp(f, "addcslashes")) o = handlebars_string_addcslashes(ctx, s, a, al);
            else if (!strcmp(f, "esc")) o = handlebars_string_htmlspecialchars(ctx, hbs_str_val(s), hbs_str_len(s));
            else if (!strcmp(f, "indent")) { handlebars_string_addref(s); o = handlebars_string_indent(ctx, s, mkstr(ctx, a, al)); }
            else if (!strcmp(f, "indent_append")) { handlebars_string_addref(s); o = handlebars_string_indent_append(ctx, mkstr(ctx, b, bl), s, mkstr(ctx, a, al)); }
            else if (!strcmp(f, "copy")) o = handlebars_string_copy_ctor(ctx, s);
            else if (!strcmp(f, "asprintf")) { char * t = rq_cstr(r, 4); o = handlebars_string_asprintf(ctx, "%s-%ld-%s", t, 7L, t); free(t); }
            else if (!strcmp(f, "implode")) {
                struct handlebars_string * parts[64]; int n = 0;
                for (int i = 5; i < r->n && n < 63; i++) parts[n++] = mkstr(ctx, r->p[i], r->l[i]);
                parts[n] = NULL; o = handlebars_string_implode(ctx, a, al, parts);
            }
            else if (!strcmp(f, "eq")) { num = handlebars_string_eq(s, mkstr(ctx, a, al)); isnum = true; }
            else if (!strcmp(f, "eq_strl")) { num = hbs_str_eq_strl(s, a, al); isnum = true; }
            else if (!strcmp(f, "strnstr")) { const char * t = handlebars_strnstr(r->p[3], r->l[3], a, al); num = t ? t - r->p[3] : -1; isnum = true; }
            else if (!strcmp(f, "hash")) { uint32_t h1 = handlebars_string_hash(r->p[3], r->l[3]), h2 = hbs_str_hash(s); num = h1 == h2 ? (long) h1 : -1; isnum = true; }
            else if (!strcmp(f, "djb")) { num = handlebars_hash_djbx33a(r->p[3], r->l[3]); isnum = true; }
            else die("str fn");
        }
        (void) txt;
        reps("ok");
        if (isnum) repn(num);
        else {
            rep(hbs_str_val(o), hbs_str_len(o));
            /* the text is NUL-terminated and the cached hash is the hash of these bytes */
            uint32_t want = handlebars_string_hash(hbs_str_val(o), hbs_str_len(o));
            repn(hbs_str_val(o)[hbs_str_len(o)] == 0); repn(hbs_str_len(o) == 0 || hbs_str_hash(o) == want);
        }
        if (share || !consumed) { reps("orig"); rep(hbs_str_val(keep), hbs_str_len(keep)); }
    CATCH rep_err(ctx); ENDTRY
    free((char *) f);
    handlebars_context_dtor(ctx);
}

/* script: lines of space separated tokens; keys/strings are hex */
static size_t unhex(const char * h, char * o) { size_t n = 0; if (*h == '-') return 0; while (h[0] && h[1]) { unsigned v; sscanf(h, "%2x", &v); o[n++] = v; h += 2; } return n; }
static void hexout(struct buf * b, const char * p, size_t n) { if (!n) bstr(b, "-"); for (size_t i = 0; i < n; i++) bfmt(b, "%02x", (unsigned char) p[i]); }

static int cmp_key(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b)
{
    size_t x = hbs_str_len(a->key), y = hbs_str_len(b->key); int c = memcmp(hbs_str_val(a->key), hbs_str_val(b->key), x < y ? x : y);
    return c ? c : (x > y) - (x < y);
}
static int cmp_val_r(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b, const void * arg)
{
    long x = handlebars_value_get_intval(a->value), y = handlebars_value_get_intval(b->value); int s = *(const int *) arg;
    return s * ((x > y) - (x < y));
}
static void dumpmap(struct buf * b, struct handlebars_map * m)
{
    handlebars_map_foreach(m, idx, k, v) { hexout(b, hbs_str_val(k), hbs_str_len(k)); bfmt(b, "=%ld ", handlebars_value_get_intval(v)); (void) idx; } handlebars_map_foreach_end(m);
}
#define NEXT() (tok = strtok_r(NULL, " ", &sp))
/* visit:op:key:value,... : walks over the map and changes it (which is then not shared) at those visits */
static int walk_step(struct handlebars_context * ctx, struct handlebars_map * m, char op, const char * k, size_t kl, long v)
{
    HANDLEBARS_VALUE_DECL(wv); handlebars_value_integer(wv, v);
    jmp_buf jb; jmp_buf * prev = ctx->e->jmp; volatile int ok = 0; struct handlebars_map * volatile res = m;
    ctx->e->jmp = &jb;
    if (setjmp(jb) == 0) {
        if (op == 'A') res = handlebars_map_str_add(m, k, kl, wv);
        else if (op == 'U') res = handlebars_map_str_update(m, k, kl, wv);
        else res = handlebars_map_str_remove(m, k, kl);
        ok = 1;
    }
    ctx->e->jmp = prev;
    HANDLEBARS_VALUE_UNDECL(wv);
    return res != m ? 2 : ok;
}
static void walkmap(struct handlebars_context * ctx, struct buf * o, struct handlebars_map * m, char * plan)
{
    static __thread char key[4096]; long visit = 0;
    handlebars_map_foreach(m, idx, k, v) {
        (void) idx;
        hexout(o, hbs_str_val(k), hbs_str_len(k)); bfmt(o, "=%ld ", handlebars_value_get_intval(v));
        char * p = plan;
        while (p && *p) {
            char * e; long at = strtol(p, &e, 10); char op = e[1]; char * ks = e + 3; char * ke = strchr(ks, ':'); long val = strtol(ke + 1, &e, 10);
            p = *e == ',' ? e + 1 : e;
            if (at != visit) continue;
            size_t kl = 0; for (char * x = ks; x < ke && *x != '-'; x += 2) { unsigned b; sscanf(x, "%2x", &b); key[kl++] = (char) b; }
            if (op == 'I') {
                bstr(o, "( "); HANDLEBARS_VALUE_DECL(mv); handlebars_value_map(mv, m);
                HANDLEBARS_VALUE_FOREACH_KV(mv, k2, c2) { hexout(o, hbs_str_val(k2), hbs_str_len(k2)); bfmt(o, "=%ld ", handlebars_value_get_intval(c2)); } HANDLEBARS_VALUE_FOREACH_END();
                HANDLEBARS_VALUE_UNDECL(mv); bstr(o, ") ");
            } else if (op == 'D') { bstr(o, "( "); dumpmap(o, m); bstr(o, ") ");
            } else if (op == 'P') { handlebars_map_sparse_array_compact(m);
            } else if (op == 'F') { struct handlebars_value * f = handlebars_map_str_find(m, key, kl); if (f) bfmt(o, "?%ld ", handlebars_value_get_intval(f)); else bstr(o, "?none ");
            } else { char * kx = malloc(kl ? kl : 1); memcpy(kx, key, kl); int ok = walk_step(ctx, m, op, kx, kl, val); free(kx); bstr(o, ok == 2 ? "MOVED " : ok ? "+ " : "! "); }
        }
        if (++visit > 5000) { bstr(o, "ENDLESS"); break; }
    } handlebars_map_foreach_end(m);
}
static void op_map(struct req * r) /* map cap script */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    static __thread struct handlebars_map * m; static __thread struct handlebars_map * snaps[64]; static __thread int ns; ns = 0;
    static __thread struct buf o; o.n = 0;
    static __thread char * script, * line, * lp; script = rq_cstr(r, 2);
    static __thread char key[4096];
    m = handlebars_map_ctor(ctx, rq_num(r, 1)); handlebars_map_addref(m);
    lp = NULL; line = strtok_r(script, "\n", &lp);
    for (; line; line = strtok_r(NULL, "\n", &lp)) {
        TRY(ctx)
            char * sp = NULL, * tok = strtok_r(line, " ", &sp); char c = tok[0];
            size_t kl = 0; long v = 0;
            if (strchr("AURFaurf", c)) { NEXT(); kl = unhex(tok, key); if (NEXT()) v = strtol(tok, NULL, 10); }
            char * kx = malloc(kl ? kl : 1); memcpy(kx, key, kl);
            HANDLEBARS_VALUE_DECL(hv); handlebars_value_integer(hv, v);
            struct handlebars_value * res; 
            struct handlebars_string * ks = NULL;
            if (strchr("AURF", c)) { ks = mkstr(ctx, kx, kl); handlebars_string_addref(ks); }
            switch (c) {
            case 'A': m = handlebars_map_add(m, ks, hv); bstr(&o, "."); break;
            case 'U': m = handlebars_map_update(m, ks, hv); bstr(&o, "."); break;
            case 'R': m = handlebars_map_remove(m, ks); bstr(&o, "."); break;
            case 'F': res = handlebars_map_find(m, ks); if (res) bfmt(&o, "%ld", handlebars_value_get_intval(res)); else bstr(&o, "none"); break;
            case 'a': m = handlebars_map_str_add(m, kx, kl, hv); bstr(&o, "."); break;
            case 'u': m = handlebars_map_str_update(m, kx, kl, hv); bstr(&o, "."); break;
            case 'r': m = handlebars_map_str_remove(m, kx, kl); bstr(&o, "."); break;
            case 'f': res = handlebars_map_str_find(m, kx, kl); if (res) bfmt(&o, "%ld", handlebars_value_get_intval(res)); else bstr(&o, "none"); break;
            case 'C': bfmt(&o, "%zu", handlebars_map_count(m)); break;
            case 'D': dumpmap(&o, m); break;
            case 'I': { HANDLEBARS_VALUE_DECL(mv); handlebars_value_map(mv, m); HANDLEBARS_VALUE_FOREACH_IDX_KV(mv, ix, k, ch) { bfmt(&o, "%zu:", ix); hexout(&o, hbs_str_val(k), hbs_str_len(k)); bfmt(&o, "=%ld ", handlebars_value_get_intval(ch)); } HANDLEBARS_VALUE_FOREACH_END(); HANDLEBARS_VALUE_UNDECL(mv); break; }
            case 'N': { HANDLEBARS_VALUE_DECL(mv); handlebars_value_map(mv, m); HANDLEBARS_VALUE_FOREACH_KV(mv, k, ch) { (void) k; HANDLEBARS_VALUE_FOREACH_KV(mv, k2, ch2) { (void) k2; bfmt(&o, "%ld/%ld ", handlebars_value_get_intval(ch), handlebars_value_get_intval(ch2)); } HANDLEBARS_VALUE_FOREACH_END(); } HANDLEBARS_VALUE_FOREACH_END(); HANDLEBARS_VALUE_UNDECL(mv); break; }
            case 'W': { NEXT(); char * plan = strdup(tok ? tok : ""); walkmap(ctx, &o, m, plan); free(plan); break; }
            case 'S': m = handlebars_map_sort(m, cmp_key); bstr(&o, "."); break;
            case 's': { NEXT(); int dir = atoi(tok); m = handlebars_map_sort_r(m, cmp_val_r, &dir); bstr(&o, "."); break; }
            case 'H': m = handlebars_map_rehash(m, true); bstr(&o, "."); break;
            case 'h': m = handlebars_map_rehash(m, false); bstr(&o, "."); break;
            case 'P': handlebars_map_sparse_array_compact(m); bfmt(&o, "%zu %d", handlebars_map_sparse_array_count(m), handlebars_map_is_sparse(m)); break;
            case 'Y': { NEXT(); struct handlebars_map * n = handlebars_map_copy_ctor(m, atol(tok)); handlebars_map_addref(n); handlebars_map_delref(m); m = n; bstr(&o, "."); break; }
            case 'Z': handlebars_map_addref(m); snaps[ns++] = m; bstr(&o, "."); break;
            case 'z': { NEXT(); dumpmap(&o, snaps[atoi(tok)]); break; }
            case 'G': { NEXT(); long i = atol(tok); struct handlebars_string * k; struct handlebars_value * gv; handlebars_map_get_kv_at_index(m, i, &k, &gv); struct handlebars_string * k1 = handlebars_map_get_key_at_index(m, i); if (k1 != k) bstr(&o, "KEYDIFF"); hexout(&o, hbs_str_val(k), hbs_str_len(k)); bfmt(&o, "=%ld", handlebars_value_get_intval(gv)); break; }
            case 'Q': { NEXT(); struct handlebars_string * k = handlebars_map_get_key_at_index(m, atol(tok)); hexout(&o, hbs_str_val(k), hbs_str_len(k)); break; }
            case 'L': { short lf = handlebars_map_load_factor(m); bstr(&o, lf >= 0 && lf <= 100 ? "." : "LF"); break; }
            default: die("map op");
            }
            free(kx);
            HANDLEBARS_VALUE_UNDECL(hv);
        CATCH bfmt(&o, "E:%s", handlebars_error_msg(ctx)); ENDTRY
        bstr(&o, "\n");
    }
    rep(o.p ? o.p : "", o.n);
    free(script);
    handlebars_context_dtor(ctx);
}

static void dumpstk(struct buf * b, struct handlebars_stack * s)
{
    for (size_t i = 0; i < handlebars_stack_count(s); i++) bfmt(b, "%ld ", handlebars_value_get_intval(handlebars_stack_get(s, i)));
}
static void op_stk(struct req * r) /* stk kind(0 heap, 1 caller memory) cap script */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    static __thread struct handlebars_stack * s; static __thread struct handlebars_stack * snaps[64]; static __thread int ns; ns = 0;
    static __thread struct handlebars_stack_save_buf saves[64]; static __thread int nsave; nsave = 0;
    static __thread struct buf o; o.n = 0;
    static __thread char * script, * line, * lp; script = rq_cstr(r, 3);
    size_t cap = rq_num(r, 2);
    static __thread void * mem; mem = NULL;
    if (rq_num(r, 1)) { mem = malloc(handlebars_stack_size(cap)); s = handlebars_stack_init(ctx, mem, cap); } else s = handlebars_stack_ctor(ctx, cap);
    handlebars_stack_addref(s);
    lp = NULL; line = strtok_r(script, "\n", &lp);
    for (; line; line = strtok_r(NULL, "\n", &lp)) {
        TRY(ctx)
            char * sp = NULL, * tok = strtok_r(line, " ", &sp); char c = tok[0];
            long a = 0, b = 0; if (NEXT()) a = atol(tok); if (tok && NEXT()) b = atol(tok);
            HANDLEBARS_VALUE_DECL(hv); HANDLEBARS_VALUE_DECL(rv);
            struct handlebars_value * res;
            switch (c) {
            case '+': handlebars_value_integer(hv, a); s = handlebars_stack_push(s, hv); bstr(&o, "."); break;
            case '-': res = handlebars_stack_pop(s, rv); if (res) bfmt(&o, "%ld", handlebars_value_get_intval(res)); else bstr(&o, "none"); break;
            case 'T': res = handlebars_stack_top(s); if (res) bfmt(&o, "%ld", handlebars_value_get_intval(res)); else bstr(&o, "none"); break;
            case 'G': res = handlebars_stack_get(s, a); if (res) bfmt(&o, "%ld", handlebars_value_get_intval(res)); else bstr(&o, "none"); break;
            case '=': handlebars_value_integer(hv, b); s = handlebars_stack_set(s, a, hv); bstr(&o, "."); break;
            case 'C': bfmt(&o, "%zu", handlebars_stack_count(s)); break;
            case 'D': dumpstk(&o, s); break;
            case 'X': handlebars_stack_truncate(s, a); bstr(&o, "."); break;
            case 'W': saves[nsave++] = handlebars_stack_save(s); bstr(&o, "."); break;
            case 'V': if (nsave) handlebars_stack_restore(s, saves[--nsave]); bstr(&o, "."); break;
            case 'Z': handlebars_stack_addref(s); snaps[ns++] = s; bstr(&o, "."); break;
            case 'z': dumpstk(&o, snaps[a]); break;
            case 'Y': { struct handlebars_stack * n = handlebars_stack_copy_ctor(s, a); handlebars_stack_addref(n); handlebars_stack_delref(s); s = n; bstr(&o, "."); break; }
            case 'I': { HANDLEBARS_VALUE_DECL(av); handlebars_value_array(av, s); HANDLEBARS_VALUE_FOREACH_IDX(av, ix, ch) { bfmt(&o, "%zu=%ld ", ix, handlebars_value_get_intval(ch)); } HANDLEBARS_VALUE_FOREACH_END(); handlebars_value_null(av); break; }
            case 'P': res = handlebars_stack_top(s); if (res) { s = handlebars_stack_push(s, res); bstr(&o, "."); } else bstr(&o, "none"); break; /* push an element of the stack itself */
            default: die("stk op");
            }
            HANDLEBARS_VALUE_UNDECL(rv); HANDLEBARS_VALUE_UNDECL(hv);
        CATCH bfmt(&o, "E:%d", handlebars_error_num(ctx)); ENDTRY
        bstr(&o, "\n");
    }
    rep(o.p ? o.p : "", o.n);
    free(script);
    handlebars_context_dtor(ctx);
    free(mem);
}

/* values: 8 slots, script of operations; results reported per line */
static void op_vseq(struct req * r) /* vseq script */
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    static __thread struct handlebars_value slot[8]; for (int i = 0; i < 8; i++) handlebars_value_init(&slot[i]);
    static __thread struct buf o; o.n = 0;
    static __thread char * script, * line, * lp; script = rq_cstr(r, 1);
    static __thread char tmp[8192];
    lp = NULL; line = strtok_r(script, "\n", &lp);
    for (; line; line = strtok_r(NULL, "\n", &lp)) {
        TRY(ctx)
            char * sp = NULL, * tok = strtok_r(line, " ", &sp); char op[16]; snprintf(op, sizeof op, "%s", tok);
            NEXT(); int i = atoi(tok); struct handlebars_value * v = &slot[i];
            HANDLEBARS_VALUE_DECL(rv);
            if (!strcmp(op, "set")) { NEXT(); size_t n = unhex(tok, tmp); decv(ctx, tmp, tmp + n, v); bstr(&o, "."); }
            else if (!strcmp(op, "str")) { NEXT(); size_t n = unhex(tok, tmp); handlebars_value_str(v, mkstr(ctx, tmp, n)); bstr(&o, "."); }
            else if (!strcmp(op, "flag")) { handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING); bstr(&o, "."); }
            else if (!strcmp(op, "cp")) { NEXT(); handlebars_value_value(v, &slot[atoi(tok)]); bstr(&o, "."); }
            else if (!strcmp(op, "null")) { handlebars_value_null(v); bstr(&o, "."); }
            else if (!strcmp(op, "push")) { NEXT(); if (handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_ARRAY) handlebars_value_array_push(v, &slot[atoi(tok)]); bstr(&o, "."); }
            else if (!strcmp(op, "aset")) { NEXT(); long ix = atol(tok); NEXT(); if (handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_ARRAY) handlebars_value_array_set(v, ix, &slot[atoi(tok)]); bstr(&o, "."); }
            else if (!strcmp(op, "upd")) { NEXT(); size_t n = unhex(tok, tmp); NEXT(); if (handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_MAP) { handlebars_value_map_update(v, mkstr(ctx, tmp, n), &slot[atoi(tok)]); } bstr(&o, "."); }
            else if (!strcmp(op, "find")) { NEXT(); size_t n = unhex(tok, tmp); struct handlebars_string * k = mkstr(ctx, tmp, n); encv(&o, handlebars_value_map_find(v, k, rv), 0); bstr(&o, " "); encv(&o, handlebars_value_map_str_find(v, tmp, n, rv), 0); }
            else if (!strcmp(op, "get")) { NEXT(); encv(&o, handlebars_value_array_find(v, strtol(tok, NULL, 10), rv), 0); }
            else if (!strcmp(op, "take")) { NEXT(); struct handlebars_value * f = handlebars_value_array_find(v, strtol(tok, NULL, 10), rv); NEXT(); if (f) handlebars_value_value(&slot[atoi(tok)], f); bstr(&o, "."); }
            /* what is assigned is a part of what it is assigned to */
            else if (!strcmp(op, "pushel")) { NEXT(); handlebars_value_array_push(v, handlebars_stack_get(handlebars_value_get_stack(v), atol(tok))); bstr(&o, "."); }
            else if (!strcmp(op, "asetel")) { NEXT(); long ix = atol(tok); NEXT(); handlebars_value_array_set(v, ix, handlebars_stack_get(handlebars_value_get_stack(v), atol(tok))); bstr(&o, "."); }
            else if (!strcmp(op, "updel")) { NEXT(); size_t n = unhex(tok, tmp); struct handlebars_string * k = mkstr(ctx, tmp, n); NEXT(); n = unhex(tok, tmp); handlebars_value_map_update(v, k, handlebars_map_str_find(handlebars_value_get_map(v), tmp, n)); bstr(&o, "."); }
            else if (!strcmp(op, "self")) { NEXT(); handlebars_value_value(v, handlebars_stack_get(handlebars_value_get_stack(v), atol(tok))); bstr(&o, "."); }
            else if (!strcmp(op, "selfm")) { NEXT(); size_t n = unhex(tok, tmp); handlebars_value_value(v, handlebars_map_str_find(handlebars_value_get_map(v), tmp, n)); bstr(&o, "."); }
            else if (!strcmp(op, "selfp") || !strcmp(op, "selfpm")) {
                NEXT();
                struct handlebars_value * e;
                if (op[5]) { size_t n = unhex(tok, tmp); e = handlebars_map_str_find(handlebars_value_get_map(v), tmp, n); }
                else e = handlebars_stack_get(handlebars_value_get_stack(v), atol(tok));
                if (handlebars_value_get_real_type(e) == HANDLEBARS_VALUE_TYPE_MAP) handlebars_value_map(v, handlebars_value_get_map(e));
                else if (handlebars_value_get_real_type(e) == HANDLEBARS_VALUE_TYPE_ARRAY) handlebars_value_array(v, handlebars_value_get_stack(e));
                else if (handlebars_value_get_real_type(e) == HANDLEBARS_VALUE_TYPE_STRING) handlebars_value_str(v, handlebars_value_get_string(e));
                else handlebars_value_value(v, e);
                bstr(&o, ".");
            }
            else if (!strcmp(op, "enc")) encv(&o, v, 0);
            else if (!strcmp(op, "count")) bfmt(&o, "%ld", handlebars_value_count(v));
            else if (!strcmp(op, "bool")) bfmt(&o, "%d%d", handlebars_value_get_boolval(v), handlebars_value_is_empty(v));
            else if (!strcmp(op, "kind")) bfmt(&o, "%d%d%d", handlebars_value_get_type(v), handlebars_value_is_scalar(v), handlebars_value_is_callable(v));
            else if (!strcmp(op, "tostr")) { struct handlebars_string * s = handlebars_value_to_string(v, ctx); hexout(&o, hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); }
            else if (!strcmp(op, "expr")) { NEXT(); struct handlebars_string * s = handlebars_value_expression(ctx, v, atoi(tok)); hexout(&o, hbs_str_val(s), hbs_str_len(s)); }
            else if (!strcmp(op, "eq")) { NEXT(); bfmt(&o, "%d", handlebars_value_eq(v, &slot[atoi(tok)])); }
            else if (!strcmp(op, "dump")) { char * d = handlebars_value_dump(v, ctx, 0); hexout(&o, d, strlen(d)); talloc_free(d); }
            else if (!strcmp(op, "json")) { /* set from JSON wrapper */ NEXT(); size_t n = unhex(tok, tmp); handlebars_value_init_json_stringl(ctx, v, tmp, n); bstr(&o, "."); }
            else if (!strcmp(op, "conv")) { handlebars_value_convert(v); bstr(&o, "."); }
            else die("vseq op");
            HANDLEBARS_VALUE_UNDECL(rv);
        CATCH bfmt(&o, "E:%d", handlebars_error_num(ctx)); ENDTRY
        bstr(&o, "\n");
    }
    for (int i = 0; i < 8; i++) handlebars_value_dtor(&slot[i]);
    rep(o.p ? o.p : "", o.n);
    free(script);
    handlebars_context_dtor(ctx);
}
