"""D04: objects shared by values are destroyed exactly once, when nothing refers to them any more.

User-defined values, pointers and closures record their destruction.  The model has eight holders of value
trees (values are values: a copy is independent of what it was copied from), so an object is alive exactly
as long as it occurs in one of the trees."""
import shutil
import drv
from chk_safe import scenario, req, plain_data, flagset
from chk_input import clean, ydoc, jtext

ENC = {"N": b"N", "T": b"T", "F": b"F"}
KEYS = [b"a", b"b", b"c", b"0", b"k" * 40]
CLO, PTR = 11, 9  # the numbers of the real types, checked against the library by `real`


def unwrap(v):
    while v[0] == "U": v = v[2]
    return v


def enc(v):
    v = unwrap(v); k = v[0]
    if k in ENC: return ENC[k]
    if k == "I": return b"I%d;" % v[1]
    if k == "S": return b"S%d:%s" % (len(v[1]), v[1])
    if k == "L": return b"[" + b"".join(map(enc, v[1])) + b"]"
    if k == "M": return b"{" + b"".join(b"S%d:%s%s" % (len(n), n, enc(x)) for n, x in v[1]) + b"}"
    return b"?%d;" % (PTR if k == "P" else CLO)


def kids(v):
    k = v[0]
    return v[1] if k == "L" else [x for _, x in v[1]] if k == "M" else [v[2]] if k == "U" else [v[3], v[4]] if k == "C" else []


def size(v, memo):
    i = id(v)
    if i not in memo: memo[i] = 1 + sum(size(x, memo) for x in kids(v)), v
    return memo[i][0]


def depth(v): return 1 + max([0] + [depth(x) for x in kids(v)])


def alive(S):
    ids, seen, st = set(), set(), list(S)
    while st:
        v = st.pop()
        if id(v) in seen: continue
        seen.add(id(v))
        if v[0] in "UPC": ids.add(v[1])
        st += kids(v)
    return ids


def convert(v, rec):
    if v[0] == "U": return convert(v[2], True) if rec else v[2]
    if not rec: return v
    if v[0] == "L": return ("L", tuple(convert(x, True) for x in v[1]))
    if v[0] == "M": return ("M", tuple((n, convert(x, True)) for n, x in v[1]))
    return v


def mset(m, n, x): return ("M", tuple((a, x if a == n else b) for a, b in m[1]) + (() if any(a == n for a, _ in m[1]) else ((n, x),)))


REAL = {"N": 0, "T": 1, "F": 2, "I": 3, "S": 5, "L": 6, "M": 7, "U": 8, "P": PTR, "C": CLO}
LOW = {"N": 0, "T": 1, "F": 0, "P": 1, "C": 1}


def has_clo(v): return v[0] == "C" or any(has_clo(x) for x in kids(v))


TEMPL = ["{{s0}}", "{{#each s0}}{{this}};{{@key}}{{@index}}{{#each this}}({{.}}){{/each}}{{/each}}", "{{#each s1 as |v k|}}{{k}}={{v}}{{#with v}}{{a}}{{/with}}{{/each}}",
         "{{#with s0}}{{a}}{{b.c}}{{../s1}}{{else}}-{{/with}}", "{{#s2}}{{a}}{{../s0.a}}{{/s2}}", "{{^s2}}x{{/s2}}", "{{lookup s0 'a'}}{{lookup s1 0}}{{lookup s3 s4}}", "{{#if s0}}{{s0.a}}{{else}}{{s1}}{{/if}}",
         "{{s0.a}}{{s1.[0]}}{{s2.a.b}}", "{{> p0}}", "{{> p0 s1}}", "{{> p0 s1 x=s0 y=s2}}", "{{#> p1}}{{s0}}{{/p1}}", "{{#> p1 s0}}{{a}}{{/p1}}", "{{#> nope}}{{s3}}{{/nope}}", "{{#> p2}}{{#*inline \"in\"}}{{s0}}{{a}}{{/inline}}{{/p2}}",
         "{{h0 s0}}", "{{h1 s1 x=s0}}", "{{h2 s2 x=s1 y=(h0 s0)}}", "{{h3 (h0 s0) (lookup s1 'a')}}", "{{#h0 s0}}{{this}}{{s1}}{{/h0}}", "{{#h1 s0 as |q w|}}{{q}}{{w}}{{@own}}{{#each w}}{{q}}{{/each}}{{/h1}}", "{{#h2}}{{a}}{{else}}{{s0}}{{/h2}}", "{{#h3 s3}}{{a}}{{^}}{{s2}}{{/h3}}",
         "{{#each (h0 s0)}}{{.}}{{/each}}", "{{#with (h1 s0)}}{{a}}{{/with}}", "{{#each s0}}{{#each ..}}{{@../index}}{{../a}}{{h0 .}}{{/each}}{{/each}}", "{{@d0}}{{@d1.a}}{{#with @d0}}{{.}}{{/with}}", "{{@root.s0}}{{#each @root.s1}}{{@root.s2.a}}{{/each}}", "{{h0 @root}}", "{{#h0 this}}{{s1}}{{/h0}}",
         "{{{s0}}}", "{{&s1}}", "{{#s0}}{{#s1}}{{#s2}}{{.}}{{/s2}}{{/s1}}{{/s0}}", "{{#unless s0}}{{s1}}{{/unless}}", "{{s5 s0}}", "{{#s5 s0}}{{a}}{{/s5}}", "{{s6 s1 s2}}", "{{(h0 s5) s1}}", "{{> (lookup names 0) s1}}", "\n {{> p0}}\n", "{{log s0}}",
         "{{#> p1 s1 x=s0}}{{> @partial-block}}{{x}}{{/p1}}", "{{#*inline \"a\"}}{{s0}}{{/inline}}{{> a}}{{> a s1}}", "{{#each s0}}{{> p0}}{{/each}}", "{{#each s0}}{{#if @first}}{{.}}{{/if}}{{#unless @last}},{{/unless}}{{/each}}"]
PARTS = [b"[{{a}}{{x}}{{s0}}{{#each this}}{{.}}{{/each}}]", b"<{{> @partial-block}}{{x}}{{> @partial-block s1}}>", b"({{> in}}{{> in s1}}{{> @partial-block}})"]


def script(r, n):
    """lines, expected results (None: not judged), expected destructions, and the same script without user-defined values"""
    N = ("N",); S = [N] * 8; nid = [0]; lines, plain, exp, dead = [], [], [], []
    memo = {}
    live = set()
    def add(l, e=b"", p=None):
        nonlocal live
        lines.append(l); plain.append(l if p is None else p); exp.append(e)
        now = alive(S); dead.append(sorted(live - now)); live = now
    def newid(): nid[0] += 1; return nid[0] - 1
    names = [b.hex() for b in KEYS]
    for _ in range(n):
        i, j, t = (r.randrange(8) if r.random() < 0.5 else r.randrange(3) for _ in range(3)); v = S[i]; k = v[0]
        small = size(v, memo) + size(S[j], memo) < 400 and depth(S[j]) < 20
        op = r.choice(["user", "user", "ptr", "clo", "int", "str", "bool", "arr", "map", "cp", "cp", "null", "dtor", "push", "push", "push", "aset", "aset", "upd", "upd", "upd", "rem", "rem", "find", "find", "get", "get", "each", "conv", "conv", "real", "enc", "count", "test", "eq", "call", "call", "render", "render"])
        if nid[0] > 380: break
        if op == "user" and unwrap(S[j])[0] in "LM" and size(S[j], memo) < 300 and depth(S[j]) < 20: w = S[j]; d = newid(); S[i] = ("U", d, w); add("user %d %d %d" % (i, d, j), p="cp %d %d" % (i, j))
        elif op == "ptr": d = newid(); S[i] = ("P", d); add("ptr %d %d" % (i, d))
        elif op == "clo" and size(S[j], memo) + size(S[t], memo) < 200 and depth(S[j]) < 20 and depth(S[t]) < 20:
            kind = r.randrange(10)
            if kind == 6: kind += 16 * r.randrange(8)
            d = newid(); S[i] = ("C", d, kind, S[j], S[t]); add("clo %d %d %d %d %d" % (i, d, kind, j, t))
        elif op == "int": x = r.choice([0, 1, -5, 42]); S[i] = ("I", x); add("int %d %d" % (i, x))
        elif op == "str": x = r.choice([b"", b"x", b"a", b"<&>", b"y" * 200]); S[i] = ("S", x); add("str %d %s" % (i, x.hex() or "-"))
        elif op == "bool": x = r.randrange(2); S[i] = ("FT"[x],); add("bool %d %d" % (i, x))
        elif op in ("arr", "map"): S[i] = ("L" if op == "arr" else "M", ()); add("%s %d %d" % (op, i, r.choice([0, 1, 4])))
        elif op == "cp": S[i] = S[j]; add("cp %d %d" % (i, j))
        elif op in ("null", "dtor"): S[i] = N; add("%s %d" % (op, i))
        elif op == "push" and k == "L" and small: S[i] = ("L", v[1] + (S[j],)); add("push %d %d" % (i, j))
        elif op == "aset" and k == "L" and small:
            x = r.randint(0, len(v[1])); S[i] = ("L", v[1][:x] + (S[j],) + v[1][x + 1:]); add("aset %d %d %d" % (i, x, j))
        elif op == "upd" and k == "M" and small: a = r.choice(KEYS); S[i] = mset(v, a, S[j]); add("upd %d %s %d" % (i, a.hex(), j))
        elif op == "rem" and k == "M": a = r.choice(KEYS); S[i] = ("M", tuple(x for x in v[1] if x[0] != a)); add("rem %d %s" % (i, a.hex()))
        elif op == "find":
            a = r.choice(KEYS); u = unwrap(v)
            if u[0] == "M" and a in dict(u[1]): S[t] = dict(u[1])[a]
            add("find %d %s %d" % (i, a.hex(), t))
        elif op == "get":
            x = r.randrange(5); u = unwrap(v)
            if u[0] == "L" and x < len(u[1]): S[t] = u[1][x]
            add("get %d %d %d" % (i, x, t))
        elif op == "each" and i != t:
            S[t] = ("L", tuple(kids(unwrap(v))) if unwrap(v)[0] in "LM" else ()); add("each %d %d" % (i, t))
        elif op == "conv": rec = r.random() < 0.7; S[i] = convert(v, rec); add("conv %d %d" % (i, rec), p="count %d" % i)
        elif op == "real": add("real %d" % i, b"%d" % REAL[k], p="count %d" % i)
        elif op == "enc" and size(v, memo) < 1500: add("enc %d" % i, enc(v).hex().encode())
        elif op == "count": u = unwrap(v); add("count %d" % i, b"%d" % (len(u[1]) if u[0] in "LM" else -1))
        elif op == "test":
            u = unwrap(v); b = LOW[u[0]] if u[0] in LOW else u[1] != 0 if u[0] == "I" else u[1] not in (b"", b"0") if u[0] == "S" else len(u[1]) > 0
            add("test %d" % i, None if u[0] in "PC" else b"%d%d0" % (b, not b))
        elif op == "eq": add("eq %d %d" % (i, j), b"1" if i == j else b"1" if k == S[j][0] and k in "NTF" or k == S[j][0] and k in "ISUPC" and v[1] == S[j][1] else b"0" if k not in "LM" or k != S[j][0] else None)
        elif op == "call" and k == "C":
            kind = v[2]; a = S[j]; low = kind & 15; q = r.randrange(8)
            res = {0: a, 1: v[3], 3: ("L", (a, S[q], v[3], v[4])), 7: (unwrap(a)[1][0] if unwrap(a)[0] == "L" and unwrap(a)[1] else N)}.get(low, N)
            sc = r.randrange(8)
            if low == 4: res = S[sc]
            if size(res, memo) > 300: continue
            if low == 6 and a[0] in "UPC": S[kind >> 4] = a
            S[t] = res
            add("call %d %d %d %d %d" % (i, t, j, q, sc))
        elif op == "render":
            # what the template sees: s0.. = four of the holders, helpers h0.. = closures, partials, data d0 d1
            if sum(size(x, memo) for x in S) > 600 or any(depth(x) > 12 for x in S): continue
            def build(slot, items):
                S[slot] = ("M", ()); add("map %d %d" % (slot, len(items)))
                for nm, src in items:
                    S[slot] = mset(S[slot], nm, S[src]); add("upd %d %s %d" % (slot, nm.hex(), src))
            part, hel, dat, ctx = r.sample(range(8), 4)
            rest = [x for x in range(8) if x not in (part, hel, dat, ctx)]
            hasd = r.random() < 0.6; hash_ = r.random() < 0.8
            if hash_:
                S[hel] = ("M", ()); add("map %d 0" % hel)
                for q in range(4):
                    src, s2, s3 = (r.choice(rest) for _ in range(3))
                    if S[src][0] != "C" or r.random() < 0.3:
                        d = newid(); kind = r.choice([0, 0, 1, 2, 3, 4, 5, 5, 7, 8, 9]); src = dat
                        S[dat] = ("C", d, kind, S[s2], S[s3]); add("clo %d %d %d %d %d" % (dat, d, kind, s2, s3))
                    S[hel] = mset(S[hel], b"h%d" % q, S[src]); add("upd %d %s %d" % (hel, (b"h%d" % q).hex(), src))
            if hasd: build(dat, [(b"d0", rest[0]), (b"d1", rest[1])])
            S[part] = ("M", ()); add("map %d 3" % part)
            # partials are strings; the holder of the context carries them one by one
            for q, b in enumerate(PARTS):
                S[ctx] = ("S", b); add("str %d %s" % (ctx, b.hex()))
                S[part] = mset(S[part], b"p%d" % q, S[ctx]); add("upd %d %s %d" % (part, (b"p%d" % q).hex(), ctx))
            build(ctx, [(b"s%d" % q, rest[q % 4]) for q in range(7)])
            if r.random() < 0.4 and size(S[ctx], memo) < 300: d = newid(); S[ctx] = ("U", d, S[ctx]); add("user %d %d %d" % (ctx, d, ctx), p="cp %d %d" % (ctx, ctx))
            t_ = "".join(r.choice(TEMPL) for _ in range(r.choice([1, 1, 2, 3]))).encode()
            fl = 64 * hasd + r.choice([0, 0, 1, 8, 32, 4096, 1 + 4096])
            add("render %d %d %d %d %d %s" % (ctx, fl, part, hel if hash_ else -1, dat if hasd else -1, t_.hex()), None)
            if any(c[2] & 15 == 6 for c in clos(S)): return lines, exp, dead, plain, True
    S = [N] * 8; now = alive(S); lines_end = sorted(live - now)
    dead.append(lines_end); exp.append(b"")
    return lines, exp, dead, plain, False


def clos(S):
    st, seen, out = list(S), set(), []
    while st:
        v = st.pop()
        if id(v) in seen: continue
        seen.add(id(v))
        if v[0] == "C": out.append(v)
        st += kids(v)
    return out


def d04_own(cx, r, i):
    lines, exp, dead, plain, loose = script(r, r.choice([15, 40, 120]))
    got = cx.d.call("own", "\n".join(lines))[0].split(b"\n")[:-1]
    cx.ev(len(lines)); cx.count("ownership scripts")
    err = False
    def fail(m, x): cx.fail(m, "after %r\n%r: %r" % (lines[:n], l, x))
    for l in lines: cx.count("ownership op " + l.split()[0])
    total = 0
    for n, l in enumerate(lines + ["(end)"]):
        res, _, ids = got[n].partition(b" |")
        ids = ids.split()
        for x in ids:
            if b"*" in x: return fail("an object was destroyed more than once", x)
        ids = [int(x) for x in ids]; total += len(ids)
        if loose and n >= len(lines) - 1: continue  # a closure that keeps its argument may have been called
        if exp[n] is not None and res != exp[n]: return fail("unexpected result of an operation (%s)" % l.split()[0], (res, exp[n]))
        if res.startswith(b"E:"): err = True; cx.count("renders that fail")
        elif l.startswith("render"):
            cx.count("renders that succeed")
            if not loose and b" left 0 " not in res: return fail("a render left memory in the context", res)
        if err:
            # after an error references may stay behind until the context goes, but nothing in use may go
            early = set(ids) - set(dead[n])
            if early - set().union(*map(set, dead[:n + 1])): return fail("an object was destroyed while in use", early)
        elif ids != dead[n]: return fail("destroyed objects differ from those nothing refers to any more (%s)" % l.split()[0], "destroyed %r, expected %r" % (ids, dead[n]))
    cx.count("destructions observed", total)
    cx.seen(hash((tuple(l for l in lines), total)) & 0xffffffff)
    # user-defined values read like what they hold
    if not loose:
        got2 = cx.d.call("own", "\n".join(plain))[0].split(b"\n")[:-1]
        for n, l in enumerate(lines):
            if l.startswith("render"):
                a, b = (g[n].partition(b" |")[0] for g in (got, got2)); cx.count("renders compared with plain values")
                if a != b: return fail("a user-defined value does not render like its contents", (a, b))
    if i < 2: cx.sample("%r destroys %r" % (lines[:20], dead[:20]))


def d04(ck):
    ck.rule = "distinct = (operation sequence, number of destructions)"
    ck.assumptions += ["fewer than 255 references to one object", "after an error of a render, references it held may stay until the context is destroyed"]
    ck.build("asan", "asand")
    ck.cases(d04_own, ck.q(6000, 100000), tag="own")
    ck.cases(d04_own, ck.q(1500, 20000), variant="asand", tag="ownd")


# ------------------------------------------------------------------ S07: nothing is left behind
BASE = {}


def left(cx, args):
    g = cx.d.call("render", *args, timeout=60)
    if g[0] != b"ok": return None
    return g[g.index(b"left") + 1]


def dirs(cx, ps):
    """the partials as files, for the loader"""
    import os, tempfile
    d = tempfile.mkdtemp(prefix="hbs-left-")
    for k, v in ps.items():
        if "/" in k or "\0" in k or k in ("", ".", ".."): continue
        with open(os.path.join(d, k + ".hbs"), "wb") as f: f.write(v if isinstance(v, bytes) else v.encode("utf-8", "surrogateescape"))
    return d


def s07_left(cx, r, i):
    src, ps, data, h = scenario(r, 3, r.choice([2, 4]))
    if r.random() < 0.3: src += r.choice([b"{{h0 s0}}", b"{{#with a}}{{../b}}{{/with}}", b"{{#each items as |v k|}}{{k}}{{v}}{{/each}}", b"{{#> p}}{{a}}{{/p}}", b"{{> (lookup . 'pname')}}", b"{{#*inline 'q'}}{{a}}{{/inline}}{{> q}}{{> q obj x=1}}", b"{{log a b}}", b"{{lookup obj (lookup . 'a')}}", b"{{#each obj}}{{#each ..}}{{@../key}}{{/each}}{{/each}}", b"{{{{raw}}}} {{x}} {{{{/raw}}}}"])
    k = r.choice("nnnjwJy")
    if k != "n": data = clean(plain_data(data))
    t = data if k == "n" else ydoc(data, r).encode("utf-8", "surrogatepass") if k == "y" else jtext(data, r).encode("utf-8", "surrogatepass")
    f = r.choice([0, 0, 1, 8, 32, 64, 4096, flagset(r)])
    x = r.random(); loader = 0.3 < x < 0.4
    runs = r.choice([1, 2, 3, 3]) if not loader else r.choice([2, 3])  # the first execution loads the files, which the loader keeps
    extra = ["left", "2", "runs", str(runs)]
    if x < 0.2: extra += ["log", "1"]
    dd = {"root": 1, "d": [1, {"a": 2}]} if 0.2 < x < 0.3 else None
    args = req(src, ps, t, h, f, k, dd=dd, extra=extra)
    if loader:
        w = dirs(cx, ps); j = args.index("p"); args[j + 1] = w.encode() + b"\0.hbs"; args[args.index("pf") + 1] = "l"
    try: got = left(cx, args)
    except drv.Crash as e:
        if e.kind == "hang": cx.count("too slow to repeat"); return
        raise
    finally:
        if loader: shutil.rmtree(w)
    cx.ev(); cx.count("rendered from " + {"n": "native values", "j": "JSON converted", "w": "JSON lazy", "J": "JSON text", "y": "YAML"}[k])
    if got is None: cx.count("errors"); return
    cx.count("whole renderings repeated", 3); cx.count("executions on one VM", runs)
    # what the driver itself keeps, measured with a template that is one letter
    key = (k, bool(h), loader, dd is not None, f & 1, runs)
    if key not in BASE:
        a = list(args); a[a.index("t") + 1] = b"x"; a[a.index("d") + 1] = {"n": drv.encv({})}.get(k, b"{}")
        BASE[key] = left(cx, a)
    cx.seen((src, k, f, runs))
    if got != BASE[key]: cx.fail("a rendering leaves memory in the context", "%r partials %r flags %d data (%s) %r runs %d%s: blocks left by one more whole rendering, by one more execution: %s; with the template \"x\" %s" % (src, ps, f, k, t, runs, " (partials from files)" if loader else "", got.decode(), BASE[key].decode()))


def s07(ck):
    ck.rule = "distinct = (template, form of the data, flags, number of executions)"
    ck.assumptions += ["only renderings that succeed; after an error the context keeps what was in use until it is destroyed", "modules are released with talloc_free, results with handlebars_string_delref, everything else with its destructor"]
    ck.build("asan")
    ck.cases(s07_left, ck.q(6000, 90000), tag="left")


TABLE = {"D04": d04, "S07": s07}
