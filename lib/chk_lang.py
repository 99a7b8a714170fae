"""R01-R07, R11: generated templates rendered by the real library, every byte compared with model.py."""
import copy
import model, tgen, drv
from drv import Safe, Fn
from tgen import Cfg, Gen

PN = ("p", "q1", "row", "nest")


def run(cx, t, data, parts, helpers, flags=0, dd=None, src=None, psrc=None, key="", rng=None, rawpart=None, kh=None, w=None, log=False, df="n", known=()):
    """renders t with the library and with the model, reports any difference"""
    src = src if src is not None else tgen.source(t, rng)
    psrc = psrc if psrc is not None else {k: drvdec(tgen.source(v, rng)) for k, v in parts.items()}
    m = model.Machine(parts, helpers, flags, data=dd, known=known)
    try: exp = ("ok", m.render(t, data))
    except model.HbsError as e: exp = ("err", e.num, e.msg)
    except model.TooLarge: cx.count("skipped: expands too much"); return
    if exp[0] == "ok" and len(exp[1]) > 60000: cx.count("skipped: expands too much"); return
    kw = {}
    if flags: kw["f"] = str(flags)
    if dd is not None: kw["dd"] = dd
    if kh: kw["kh"] = kh
    if log: kw["log"] = "1"
    R = cx.d.render(src, data, p=psrc, h=helpers, **kw)
    got = ("ok", R.out) if R.ok else ("err", R.err, R.msg)
    cx.ev()
    cx.count("rendered" if R.ok else "errors")
    evs = b"".join(x + b"\n" for x in m.ev)
    cx.count("helper calls", len(m.ev))
    cx.count("programs run", m.steps)
    if m.steps > 1 or len(m.ev): cx.seen((src, got))
    if exp[0] == "err" and got[0] == "err":
        good = exp[1] == got[1] and exp[2] in got[2]
    else: good = exp == got
    if not good or R.ev != evs:
        what = "output" if exp[0] == got[0] == "ok" and exp != got else "error" if exp != got else "helper calls"
        cx.fail("%s differs" % what, "template %r\npartials %r\ndata %r\nflags %d\nexpected %r\n     got %r%s" % (
            src, psrc, data, flags, exp, got, "" if R.ev == evs else "\nexpected calls %r\n     got %r" % (evs[:1500], R.ev[:1500])))
    return R


def drvdec(b): return b.decode("utf-8", "surrogateescape")


def build(rng, cfg, pcfg=None, pnames=PN, depth=3, width=6, recursive=False):
    parts = {}
    for i, p in enumerate(pnames):
        c = copy.copy(pcfg or cfg)
        c.partials = pnames[:i]
        parts[p] = Gen(rng, c).body(2, 3)
    if rng.random() < 0.012: depth, width = 2, 90 # many blocks side by side
    return Gen(rng, cfg).body(depth, width), parts


def big(rng, data):
    """now and then something large, to reach growth and wrap-around"""
    if rng.random() < 0.05:
        data["items"] = [rng.choice([i, str(i), {"a": i, "n": "<%d>" % i}]) for i in range(rng.choice([17, 64, 129, 300]))]
    if rng.random() < 0.04:
        data["obj"] = {"k%d" % i: rng.choice([i, "v&%d" % i, None]) for i in range(rng.choice([9, 33, 130]))}
    return data


def case(mk, dataf=None, flagsf=None, helpersf=None, ddp=0.15):
    def f(cx, rng, i):
        cfg, pcfg, pn = mk(rng)
        t, parts = build(rng, cfg, pcfg, pn)
        data = dataf(rng) if dataf else tgen.rootdata(rng)
        big(rng, data) if isinstance(data, dict) else None
        helpers = tgen.helper_map(cfg)
        if helpersf: helpersf(rng, helpers)
        flags = flagsf(rng) if flagsf else 0
        dd = {"custom": rng.choice(["cu<st", 1, {"a": 1}, [1, 2]]), "index": "X"} if rng.random() < ddp else None
        run(cx, t, data, parts, helpers, flags, dd, rng=rng)
    return f


# ---------------------------------------------------------------- R01
def esc_value(r, depth=2):
    alpha = ["&", "<", ">", "\"", "'", "`", "a", "&amp;", "&lt;", "é", "\x01", "=", "/", " ", "\n", "\x7f", "~", "€", "😀"]
    s = "".join(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 8, 40, 200])))
    x = r.random()
    if x < 0.5: return s
    if x < 0.65: return Safe(s)
    if x < 0.85 and depth: return [esc_value(r, depth - 1) for _ in range(r.randint(0, 4))]
    if x < 0.95 and depth: return {k: esc_value(r, depth - 1) for k in r.sample(tgen.KEYS, 3)}
    return r.choice([1, -5, 2.5, True, False, None])


def c_r01(r):
    c = Cfg(helpers=["id", "cat", "safe", "list", "enc", "name", "scope"], bhelpers=["blk", "ctx", "rep", "bp"], partials=PN, missing=0.0,
            p_mu=0.6, p_block=0.2, dynpartial=0.1, tilde=0.03)
    return c, c, PN


def d_r01(r):
    d = {k: esc_value(r) for k in tgen.KEYS}
    d["items"] = [esc_value(r) for _ in range(r.randint(0, 5))]
    return d


def r01_positions(cx, rng, i):
    """one value in every position, expected output by construction"""
    v = esc_value(rng)
    e, raw = model.expression(v, True), model.expression(v, False)
    key = rng.choice(["v", "a b", "é"])
    ref = key if key != "a b" else "[a b]"
    T = [("{{%s}}", e, raw), ("{{{%s}}}", raw, raw), ("{{&%s}}", raw, raw), ("{{& %s}}", raw, raw), ("{{hId %s}}", e, raw), ("{{{hId %s}}}", raw, raw), ("{{~%s~}}", e, raw),
         ("{{~{%s}~}}", raw, raw), ("{{hId (hId %s)}}", e, raw), ("{{@root.%s}}", e, raw), ("{{#with this}}{{%s}}{{/with}}", e, raw), ("{{this.%s}}", e, raw),
         ("{{lookup this \"%s\"}}" % key, e, raw), ("{{#bpv %s as |p|}}{{p}}{{{p}}}{{/bpv}}", e + raw, raw + raw), ("{{> par v=%s}}", e, raw), ("{{> par2 v=%s}}", raw, raw)]
    rng.shuffle(T)
    T = T[:rng.randint(1, 8)]
    src = "&<>\"'`|".join((t % ref if "%s" in t else t) for t, _, _ in T)
    noesc = rng.random() < 0.25
    want = b"&<>\"'`|".join(b if noesc else a for _, a, b in T)
    R = cx.d.render(src, {key: v}, h={"hId": "id", "bpv": "bp"}, p={"par": "{{v}}", "par2": "{{{v}}}"}, f=str(model.NOESC) if noesc else None)
    cx.ev(); cx.seen((src, want)); cx.count("values in known positions", len(T))
    if not R.ok or R.out != want:
        cx.fail("escaping differs", "template %r value %r noescape=%s\nexpected %r\n     got %r" % (src, v, noesc, want, R))


def r01_safe(cx, rng, i):
    """a safe mark stays with its value: the same string elsewhere is still escaped"""
    s = "".join(rng.choice("<>&\"'`ab") for _ in range(rng.randint(1, 12)))
    e = model.escape(s.encode())
    b = s.encode()
    T = [("{{hSafe s}}", b), ("{{s}}", e), ("{{hId s}}", e), ("{{hId (hSafe s)}}", b), ("{{hCat (hSafe s) s}}", model.escape(b + b)), ("{{#with s}}{{this}}{{hSafe this}}{{this}}{{/with}}", e + b + e),
         ("{{t}}", b), ("{{hCat t}}", e), ("{{> p v=(hSafe s)}}", b), ("{{> p v=s}}", e), ("{{hList s (hSafe s) s}}", e + b"," + b + b"," + e), ("{{lookup this \"s\"}}", e), ("{{#each l}}{{this}}{{/each}}", e + b + e),
         ("{{#hBp (hSafe s) s as |x y|}}{{x}}{{y}}{{/hBp}}", b + e), ("{{{s}}}", b)]
    pick = [rng.choice(T) for _ in range(rng.randint(1, 9))]
    src, want = "".join(a for a, _ in pick), b"".join(b for _, b in pick)
    R = cx.d.render(src, {"s": s, "t": Safe(s), "l": [s, Safe(s), s]}, h={"hSafe": "safe", "hId": "id", "hCat": "cat", "hList": "list", "hBp": "bp"}, p={"p": "{{v}}"})
    cx.ev(); cx.seen((src, s)); cx.count("safe marks", src.count("hSafe"))
    if not R.ok or R.out != want:
        cx.fail("safe mark differs", "template %r s=%r\nexpected %r\n     got %r" % (src, s, want, R))


def r01(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program, and (template, value) of positional cases"
    ck.build("asan")
    ck.cases(case(c_r01, d_r01, lambda r: model.NOESC if r.random() < 0.2 else 0), ck.q(7200, 120000), tag="esc")
    ck.cases(r01_positions, ck.q(9000, 120000), tag="pos")
    ck.cases(r01_safe, ck.q(4500, 60000), tag="safe")
    std(ck)


def std(ck):
    ck.assumptions = ["lib/model.py states the language's rules correctly", "helpers registered by the driver behave as documented there"]


# ---------------------------------------------------------------- R02
def c_r02(r):
    c = Cfg(helpers=["id", "enc", "scope", "data"], bhelpers=["ctx", "frame", "bp"], partials=PN, missing=0.0, p_mu=0.5, p_block=0.35, p_partial=0.05, p_pblock=0.02,
            blocks=("each", "each", "with", "with", "section", "section", "bhelper", "bhelper", "if", "invsec"), bparams=0.6, tilde=0.02, lookup=False,
            params=r.choice([("p0", "p1", "q"), ("a", "b", "items"), ("x1", "obj", "n")]), text="plain", depth=4)
    return c, c, PN


def r02_probe(cx, rng, i):
    """random paths printed as values with the probe helper from inside random nestings"""
    c, _, _ = c_r02(rng)
    c.partials = ()
    g = Gen(rng, c)
    data = big(rng, tgen.rootdata(rng))
    n = rng.randint(0, 5)
    def nest(k):
        body = [{"k": "mu", "expr": ("call", ("path", 0, ["hEnc"], False, False), [g.path() for _ in range(rng.randint(1, 4))], []), "esc": 3} for _ in range(rng.randint(1, 3))]
        if k:
            kind, e, bp = g.blockhead(("each", "with", "bhelper", "section", "with"))
            g.scope.append(bp or ("none",))
            inner = nest(k - 1)
            g.scope.pop()
            body.insert(rng.randint(0, len(body)), {"k": "block", "expr": e, "bp": bp, "body": inner, "clauses": [{"k": "else", "expr": None, "body": nest(k - 2)}] if k > 1 and rng.random() < 0.3 else []})
        return body
    t = nest(n)
    dd = {"custom": {"a": [1, {"b": "deep"}]}, "key": "K"} if rng.random() < 0.4 else None
    run(cx, t, data, {}, tgen.helper_map(c), 0, dd, rng=rng)


def deep_tree(rng, compat=False):
    """one long chain of contexts, across partials, with references from the bottom and half way to every level"""
    n = rng.choice([4, 8, 12, 17, 22, 25])
    keys = ["a", "b", "c", "n", "items"]
    wide = [2]
    def val(d):
        o = {k: rng.choice(["%s%d" % (k, d), d, None, False, "", "<%d>" % d, {"a": "in%d" % d}, [d]]) for k in keys if rng.random() < (0.15 if compat else 0.4)}
        o["L%d" % d] = "l%d" % d
        if d < n:
            x = val(d + 1)
            o["o"] = x if rng.random() < 0.7 else [x] * (2 if wide[0] > 0 and rng.random() < 0.3 else 1)
            if isinstance(o["o"], list) and len(o["o"]) > 1: wide[0] -= 1
        return o
    P = lambda ups, segs, data=False: ("path", ups, segs, data, not segs)
    scope = []
    def probes(d):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            x = rng.random()
            if x < 0.35: e = P(0 if compat and rng.random() < 0.7 else rng.randrange(d + 2), [rng.choice(keys + ["L%d" % rng.randrange(d + 1)])] + ["a"] * rng.choice([0, 0, 1]))
            elif x < 0.45: e = P(rng.randrange(d + 2), ["o"] * rng.randrange(1, 4) + ["a"])
            elif x < 0.7: e = P(rng.randrange(d + 2), [rng.choice(["index", "key", "first", "last", "root"])], True)
            elif scope: e = P(0, [rng.choice(scope)] + rng.choice([[], ["a"], ["o", "a"]]))
            else: e = P(0, ["root", "o", "o", "a"], True)
            if e[2] == ["root"]: e = ("path", e[1], ["root", "a"], True, False)
            out.append({"k": "mu", "expr": ("call", P(0, ["hEnc"]), [e], []), "esc": 3} if rng.random() < 0.6 else {"k": "mu", "expr": e, "esc": 2})
        return out
    parts = {}
    def level(d):
        body = probes(d)
        if d < n:
            kind = rng.choice(["each", "with", "sect", "sect"] if not compat else ["sect", "sect", "sect", "with", "each"])
            e = P(0, ["o"])
            bp = ()
            if kind != "sect":
                e = ("call", P(0, [kind]), [e], [])
                if rng.random() < 0.5: bp = tuple(["p%d" % rng.randrange(6), "q%d" % rng.randrange(6)][: rng.choice([1, 2])] if kind == "each" else ["p%d" % rng.randrange(6)])
            scope.extend(bp)
            inner = level(d + 1)
            if bp: del scope[-len(bp):]
            if rng.random() < 0.12 and len(parts) < 4:
                nm = "d%d" % len(parts)
                parts[nm] = None
                keep, scope[:] = list(scope), []
                parts[nm] = level(d + 1)
                scope[:] = keep
                inner = probes(d + 1) + [{"k": "part", "name": nm, "ctx": None, "hash": []}]
            body.append({"k": "block", "expr": e, "bp": bp, "body": inner, "clauses": []})
            body += probes(d)
        elif not compat or rng.random() < 0.7:
            body += [{"k": "mu", "expr": P(0 if compat else rng.randrange(d + 2), [rng.choice(keys + ["L%d" % rng.randrange(d + 1)])]), "esc": 2} for _ in range(6)]
        return body
    data = val(0)
    return level(0), parts, data


def r02_deep(cx, rng, i):
    t, parts, data = deep_tree(rng)
    run(cx, t, data, parts, {"hEnc": "enc"}, 0, {"custom": 1} if rng.random() < 0.2 else None, rng=rng)
    cx.count("deep chains of contexts")


def r02(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(case(c_r02, ddp=0.3), ck.q(6600, 100000), tag="path")
    ck.cases(r02_probe, ck.q(9600, 160000), tag="probe")
    ck.cases(r02_deep, ck.q(3000, 40000), tag="deep")
    std(ck)


# ---------------------------------------------------------------- R03
def c_r03(r):
    c = Cfg(helpers=["id", "cat", "enc"], bhelpers=["ctx", "rep"], partials=PN[:2], missing=0.0, p_mu=0.35, p_block=0.5, p_partial=0.02, p_pblock=0.0, builtin_errors=0.02,
            blocks=("each", "each", "if", "if", "unless", "with", "section", "section", "invsec", "bhelper"), bparams=0.3, tilde=0.02, depth=4)
    return c, c, PN[:2]


def fnhelpers(r, h):
    if r.random() < 0.1: h["log"] = "null"


VALS = [None, True, False, 0, 1, -1, 7, 0.0, 0.5, -0.0, "", "0", "x", "false", [], [0], [None], ["a", "b"], [[1, 2], []], {}, {"a": 1}, {"a": None, "b": []}, [{"n": 1}, {"n": 2}, 3], "00", " ", 10**15, 1e300]


def r03_table(cx, rng, i):
    """every built-in on every kind of value"""
    v = VALS[i % len(VALS)] if rng.random() < 0.7 else tgen.value(rng, 2)
    P = lambda *s: ("path", 0, list(s), False, False)
    call = lambda h, ps, hs=(): ("call", P(h), list(ps), list(hs))
    txt = lambda s: {"k": "text", "s": s}
    mu = lambda e: {"k": "mu", "expr": e, "esc": 2}
    probe = mu(call("hEnc", [("path", 0, [], False, True), ("path", 0, ["index"], True, False), ("path", 0, ["key"], True, False), ("path", 0, ["first"], True, False), ("path", 0, ["last"], True, False), ("path", 1, ["index"], True, False), ("path", 1, [], False, False)]))
    def blk(e, bp=(), inv=False, nested=None):
        n = {"k": "block", "inv": inv, "expr": e, "bp": bp, "body": [txt(b"("), probe] + [mu(P(b)) for b in bp] + (nested or []) + [txt(b")")], "clauses": []}
        if rng.random() < 0.6: n["clauses"].append({"k": "else", "expr": None, "body": [txt(b"else["), probe, txt(b"]")]})
        if rng.random() < 0.2: n["clauses"].insert(0, {"k": "else", "expr": call(rng.choice(["if", "each", "with", "unless"]), [rng.choice([P("w"), P("v")])]), "bp": (), "body": [txt(b"chain<"), probe, txt(b">")]})
        return n
    def any_block(d=0):
        nested = [any_block(d + 1)] if d < 2 and rng.random() < 0.35 else None
        tgt = rng.choice([P("v"), P("v"), P("w"), ("path", 0, [], False, True), P("o", "v")])
        k = rng.choice(["if", "unless", "each", "with", "sec", "inv", "ifz", "ifz0"])
        if k == "sec": return blk(tgt, nested=nested)
        if k == "inv": return blk(tgt, inv=True, nested=nested)
        if k == "ifz": return blk(call("if", [tgt], [("includeZero", ("lit", True))]), nested=nested)
        if k == "ifz0": return blk(call(rng.choice(["if", "unless"]), [tgt], [("includeZero", ("lit", False))]), nested=nested)
        return blk(call(k, [tgt]), ("x", "y") if k == "each" and rng.random() < 0.5 else ("x",) if k == "with" and rng.random() < 0.5 else (), nested=nested)
    t = [any_block(), txt(b"|"), mu(call("lookup", [P("v"), rng.choice([("lit", "a"), ("lit", 0), ("lit", 1), ("lit", -1), ("lit", 9999999), P("w"), ("lit", "0"), ("lit", "1"), ("lit", "0x"), P("f"), ("lit", "length")])])), any_block()]
    data = {"v": v, "w": rng.choice(VALS), "o": {"v": v}, "f": 1.0}
    run(cx, t, data, {}, {"hEnc": "enc"})


def r03_log(cx, rng, i):
    n = rng.randint(0, 4)
    g = Gen(rng, Cfg(helpers=["id"], missing=0))
    t = [{"k": "text", "s": b"a"}, {"k": "mu", "expr": ("call", ("path", 0, ["log"], False, False), [g.param(1) for _ in range(n)], g.hashargs(0)), "esc": 2}, {"k": "text", "s": b"b"}]
    if not t[1]["expr"][2] and not t[1]["expr"][3]: t[1]["expr"] = t[1]["expr"][1]
    run(cx, t, tgen.rootdata(rng), {}, {"hId": "id"}, log=True)


def r03(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(case(c_r03), ck.q(6000, 100000), tag="blk")
    ck.cases(r03_table, ck.q(10500, 120000), tag="tab")
    ck.cases(r03_log, ck.q(900, 6000), tag="log")
    std(ck)


# ---------------------------------------------------------------- R04
class CallGen(Gen):
    """calls of every shape: clashes of names between block params, helpers, data and callable values"""
    def callexpr(self, depth, sub=False):
        r = self.r
        x = r.random()
        ps = [self.param(depth) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]))]
        hs = self.hashargs(depth) if r.random() < 0.8 else [("k%d" % j, self.param(depth)) for j in range(r.choice([1, 3, 6]))]
        if x < 0.08 and not sub: head = ("path", 0, ["fn"], False, False)
        elif x < 0.14: head = ("path", 0, ["obj", "fn"], False, False)
        elif x < 0.2: head = ("path", 0, ["clash"], False, False)
        elif x < 0.23: head = ("path", 0, ["a"], False, False)
        elif x < 0.26: head = ("path", 0, ["fn"], False, True)
        else: head = ("path", 0, [hname(r.choice(self.c.helpers))], False, False)
        if not ps and not hs and not sub: ps = [self.lit()]
        return ("call", head, ps, hs)


def hname(i): return tgen.hname(i)


def r04_calls(cx, rng, i):
    c = Cfg(helpers=["enc", "enc", "cat", "id", "add", "list", "hash", "name", "null"], bhelpers=["blk", "inv", "bp", "rep", "ctx"], partials=(), missing=0.0, p_mu=0.6, p_block=0.3,
            blocks=("bhelper", "bhelper", "each", "with", "section", "if"), bparams=0.5, params=("p0", "clash", "fn", "hId"), tilde=0.02, lookup=True)
    g = CallGen(rng, c)
    def fix(e):
        return e
    t = g.body(3, 6)
    t = [n for n in t]
    data = tgen.rootdata(rng)
    data["fn"] = Fn(rng.choice(["enc", "name", "id"]))
    if isinstance(data.get("obj"), dict): data["obj"]["fn"] = Fn("enc")
    data["clash"] = "data value"
    helpers = tgen.helper_map(c)
    if rng.random() < 0.6: helpers["clash"] = "enc"
    if rng.random() < 0.3: helpers["helperMissing"] = "missing"
    if rng.random() < 0.2: helpers["a"] = "name"
    if rng.random() < 0.3: helpers["fn"] = rng.choice(["cat", "list", "add"])
    if clashing_bp(t): cx.count("skipped: block param called with arguments"); return
    run(cx, t, data, {}, helpers, rng=rng)


def clashing_bp(nodes, scope=()):
    """a block param used as the head of a call with arguments: the language ignores the arguments, avoid"""
    def bad(e, sc):
        if e is None or e[0] != "call": return False
        if len(e[1][2]) == 1 and e[1][1] == 0 and not e[1][4] and e[1][2][0] in sc: return True
        return any(bad(x, sc) for x in e[2]) or any(bad(x, sc) for _, x in e[3])
    for n in nodes:
        k = n["k"]
        if k == "mu" and bad(n["expr"], scope): return True
        if k == "block":
            if bad(n["expr"], scope): return True
            if clashing_bp(n["body"], scope + tuple(n.get("bp") or ())): return True
            for c in n.get("clauses") or []:
                if c.get("expr") is not None and bad(c["expr"], scope): return True
                if clashing_bp(c["body"], scope + tuple(c.get("bp") or ())): return True
    return False


def c_r04(r):
    c = Cfg(partials=PN, missing=0.05, p_mu=0.55, p_block=0.25, blocks=("bhelper", "bhelper", "each", "with", "section", "if"), tilde=0.02, builtin_errors=0.01)
    return c, c, PN


def r04_missing(cx, rng, i):
    """an unknown helper is an error that names it; helperMissing takes over when there is one"""
    name = rng.choice(["nope", "no-such", "x.y", "é", "this.nope", "long" * 20])
    args = rng.choice(["1", "a b", "k=1", "a k=b", "(hId 1)", "\"s\" true"])
    n = len([x for x in args.split() if "=" not in x]) if "(" not in args else 1
    form = rng.choice(["{{%s %s}}", "{{{%s %s}}}", "{{#%s %s}}x{{/%s}}", "{{hId (%s %s)}}", "{{#if (%s %s)}}x{{/if}}", "{{^%s %s}}x{{/%s}}"])
    src = "pre" + (form % ((name, args, name) if form.count("%s") == 3 else (name, args))) + "post"
    have = rng.random() < 0.4
    h = {"hId": "id"}
    if have: h["helperMissing"] = "missing"
    R = cx.d.render(src, {"a": 1, "b": 2}, h=h)
    cx.ev(); cx.seen((src, have)); cx.count("unknown helper calls")
    nm = name.encode()
    if have:
        m = b"M:%s:%d" % (nm, n)
        want = {"{{#if": b"prexpost"}.get(form[:5], b"pre" + m + b"post")
        if not R.ok or R.out != want: cx.fail("helperMissing not used", "template %r\nexpected %r\n     got %r" % (src, want, R))
    elif n and (R.ok or R.err != 1 or b"Missing helper: \"" + nm not in R.msg):
        cx.fail("unknown helper not refused", "template %r\ngot %r" % (src, R))
    elif not n and not R.ok and b"Missing" in R.msg: cx.fail("hash-only unknown helper", "template %r got %r" % (src, R))


def r04(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(case(c_r04), ck.q(5400, 80000), tag="call")
    ck.cases(r04_calls, ck.q(7500, 120000), tag="clash")
    ck.cases(r04_missing, ck.q(1800, 12000), tag="miss")
    std(ck)


# ---------------------------------------------------------------- R05
def c_r05(r):
    c = Cfg(helpers=["id"], bhelpers=["ctx", "rep"], partials=PN, text="ws", tilde=r.choice([0.0, 0.1, 0.3]), missing=0.0, p_mu=0.12, p_block=0.35, p_comment=0.12, p_partial=0.08, p_pblock=0.05,
            dynpartial=0.1, lits=True, blocks=("if", "if", "each", "with", "section", "invsec", "unless"), bparams=0.05, builtin_errors=0.0)
    return c, c, PN


def r05_lines(cx, rng, i):
    """layouts of lines: each line is a tag with blanks around, or text"""
    nl = rng.choice([b"\n", b"\r\n", b"\n"])
    tags = []
    def lines(d):
        out = []
        for _ in range(rng.randint(0, 3)):
            x = rng.random()
            if x < 0.35: out += [("t", rng.choice([b"x", b" y ", b"", b"  ", b"z z"])), "nl"]
            elif x < 0.5: out += ["ind", ({"k": "com", "s": b" c ", "long": rng.random() < 0.5},), "ind", "nl"]
            elif x < 0.6: out += ["ind", ({"k": "part", "name": rng.choice(["p", "q1"]), "ctx": None, "hash": []},), "ind", "nl"]
            elif x < 0.66: out += ["ind", ({"k": "mu", "expr": ("path", 0, ["v"], False, False), "esc": 2},), "ind", "nl"]
            elif d:
                inv = rng.random() < 0.25
                e = rng.choice([("path", 0, [rng.choice(["v", "f", "l"])], False, False), ("call", ("path", 0, [rng.choice(["if", "unless", "each", "with"])], False, False), [("path", 0, [rng.choice(["v", "f", "l"])], False, False)], [])])
                b = {"k": "block", "inv": inv, "expr": e, "bp": (), "_": []}
                segs = [lines(d - 1)]
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    segs.append(lines(d - 1))
                out += [("b", b, segs)]
        return out
    def ind():
        if rng.random() < 0.04: return rng.choice([b" \xa0", b"\xff ", b"\xc3\xa9", b"\xe2\x82", b" \x80 ", b"\xf0\x9f ", b"\xc2\xa0", b"-"])
        return rng.choice([b"", b"", b"  ", b"\t", b" ", b" \t "])
    def tree(ls):
        nodes = []
        def text(s):
            if not s: return
            if nodes and nodes[-1]["k"] == "text": nodes[-1]["s"] += s
            else: nodes.append({"k": "text", "s": s})
        for l in ls:
            if l == "nl": text(rng.choice([nl] * 12 + [b"", b" "]))
            elif l == "ind": text(ind())
            elif l[0] == "t": text(l[1])
            elif l[0] == "b":
                b, segs = dict(l[1]), l[2]
                def seg(s): return tree([("t", ind()), "nl"] + s + ["ind"])
                text(ind())
                b["body"] = seg(segs[0])
                cl = []
                for j, s in enumerate(segs[1:]):
                    last = j == len(segs) - 2
                    if last and rng.random() < 0.7: c = {"k": "else", "expr": None, "body": seg(s), "caret": rng.random() < 0.3}
                    else: c = {"k": "else", "expr": ("call", ("path", 0, ["if"], False, False), [("path", 0, [rng.choice(["v", "f"])], False, False)], []), "bp": (), "body": seg(s)}
                    c["sl"], c["sr"] = rng.random() < tl, rng.random() < tl
                    cl.append(c)
                b["clauses"] = cl
                for s in ("sl", "sr", "csl", "csr"): b[s] = rng.random() < tl
                nodes.append(b); text(ind()); text(rng.choice([nl] * 9 + [b""]))
            else:
                n = dict(l[0]); n["sl"], n["sr"] = rng.random() < tl, rng.random() < tl
                nodes.append(n)
        return nodes
    tl = rng.choice([0, 0, 0.15])
    t = tree(lines(3))
    parts = {"p": tree(lines(1)), "q1": [{"k": "text", "s": b"P1\nP2\n"}]}
    parts["p"] = strip_partials(parts["p"])
    data = {"v": rng.choice([1, "V", True]), "f": rng.choice([0, "", False, None]), "l": rng.choice([[], [1], [1, 2]])}
    flags = model.NOSTAND if rng.random() < 0.1 else 0
    run(cx, t, data, parts, {}, flags, rng=None)


def strip_partials(ns):
    out = []
    for n in ns:
        if n["k"] == "part": continue
        if n["k"] == "block":
            n["body"] = strip_partials(n["body"])
            for c in n["clauses"]: c["body"] = strip_partials(c["body"])
        if n["k"] == "text" and out and out[-1]["k"] == "text": out[-1] = {"k": "text", "s": out[-1]["s"] + n["s"]}
        else: out.append(n)
    return out


def r05(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one nested program"
    ck.build("asan")
    ck.cases(case(c_r05, flagsf=lambda r: model.NOSTAND if r.random() < 0.12 else 0), ck.q(7800, 120000), tag="ws")
    ck.cases(r05_lines, ck.q(12000, 160000), tag="lines")
    std(ck)


# ---------------------------------------------------------------- R06 / R07
def c_r06(r):
    c = Cfg(helpers=["id", "cat", "enc", "scope"], bhelpers=["blk", "ctx", "frame", "bp"], partials=PN, missing=0.005, p_mu=0.3, p_block=0.2, p_partial=0.35, p_pblock=0.03, dynpartial=0.3,
            text=r.choice(["plain", "ws"]), tilde=0.05)
    return c, c, PN


def partial_trouble(t, rng):
    """some partials that do not exist"""
    for n in t:
        if n["k"] == "part" and isinstance(n["name"], str) and rng.random() < 0.15: n["name"] = rng.choice(["gone", "p/q", "no-such"])
        if n["k"] == "block": partial_trouble(n["body"], rng)


def r06_gen(cx, rng, i):
    c, pc, pn = c_r06(rng)
    t, parts = build(rng, c, pc, pn)
    if rng.random() < 0.2: partial_trouble(t, rng)
    fl = 0
    if rng.random() < 0.2: fl |= model.COMPAT
    if rng.random() < 0.1: fl |= model.EXPLICIT
    if rng.random() < 0.1: fl |= model.NOINDENT
    run(cx, t, big(rng, tgen.rootdata(rng)), parts, tgen.helper_map(c), fl, rng=rng)


def r06_recursive(cx, rng, i):
    """partials that include themselves over nested data"""
    depth = rng.randint(0, 12)
    def tree(d): return {"name": rng.choice(["n<", "b", "c"]) + str(d), "kids": [tree(d - 1) for _ in range(rng.choice([1, 1, 2]) if d < 6 else 1)] if d > 0 else []}
    data = tree(min(depth, 9))
    ind = rng.choice([b"", b"  ", b"\t", b"> "[:1].replace(b">", b" ")])
    P = lambda *s: ("path", 0, list(s), False, False)
    hs = rng.choice([[], [("lvl", ("lit", "x"))], [("name2", P("name"))]])
    part = [{"k": "text", "s": b"- "}, {"k": "mu", "expr": P("name"), "esc": 2}, {"k": "mu", "expr": P("lvl"), "esc": 2}, {"k": "mu", "expr": ("path", 1, ["name"], False, False), "esc": 2}, {"k": "text", "s": b"\n"},
            {"k": "block", "expr": ("call", P("each"), [P("kids")], []), "bp": (), "clauses": [], "body": [{"k": "text", "s": b"\n" + ind}, {"k": "part", "name": "tree", "ctx": rng.choice([None, None, ("path", 0, [], False, True)]), "hash": hs}, {"k": "text", "s": b"\n"}]}]
    t = [{"k": "text", "s": b"["}, {"k": "part", "name": "tree", "ctx": None, "hash": []}, {"k": "text", "s": b"]"}, {"k": "mu", "expr": P("name"), "esc": 2}]
    run(cx, t, data, {"tree": part}, {}, rng.choice([0, 0, model.NOINDENT, model.COMPAT]))


NAMES = {"0": "0", "7": "7", "12": "12", "007": "7", "2147483647": "2147483647", "2147483648": "2147483648", "4294967297": "4294967297", "9223372036854775807": "9223372036854775807", "-5": "-5", "-4294967295": "-4294967295",
         "a": "a", "a-b": "a-b", "a/b": "a/b", "a/b/c": "a/b/c", "a.b": "a.b", "'x y'": "x y", '"x\\"y"': 'x"y', "''": "", "'\u00e9\u2713'": "\u00e9\u2713", "[x y]": "x y", "a/[x y]": "a/x y", "true": "true", "false": "false",
         "null": "null", "undefined": "undefined", "'12'": "12", "'{{'": "{{", "'}}'": "}}", "'this'": "this", "a.[b c]": "a.b c", "length": "length", "[0]": "0", "'0'": "0", "'a/b'": "a/b", "'a.b'": "a.b", "'%s%n'": "%s%n"}


def r06_names(cx, rng, i):
    """a partial is found by exactly the name it is called by, however that is written"""
    notes = rng.sample(sorted(NAMES), rng.randint(1, 5))
    ps = {v: "<%d>" % n for n, v in enumerate(sorted(set(NAMES.values()))) if rng.random() < 0.7}
    src, out, err = b"", b"", None
    for k in notes:
        n = NAMES[k]
        how = rng.choice(["plain", "plain", "block", "dyn", "dynctx"])
        h = how
        if how == "dyn": t = "{{> (lookup @root.names %d)}}" % notes.index(k)
        elif how == "dynctx": t = "{{> (hId %s)}}" % ('"%s"' % n if '"' not in n else "'%s'" % n)
        elif how == "block": t = "{{#> %s}}F{{/%s}}" % (k, k)
        else: t = rng.choice(["{{> %s}}", "{{>%s}}", "{{> %s x=1}}", "{{> %s this}}"]) % k
        src += t.encode()
        if err: continue
        if n in ps: out += ps[n].encode()
        elif how == "block": out += b"F"
        else: err = b"The partial " + n.encode() + b" could not be found"
    fl = rng.choice([0, 0, 0, 8])
    R = cx.d.render(src, {"names": [NAMES[k] for k in notes]}, p=ps, h={"hId": "id"}, f=str(fl))
    cx.ev(); cx.count("partials called by name", len(notes)); cx.seen((src, R.ok and R.out))
    if (R.ok, R.out if R.ok else None) != (not err, None if err else out) or (err and R.msg and err not in R.msg):
        cx.fail("partial name", "template %r partials %r: expected %r, got %r" % (src, ps, err or out, R.out if R.ok else (R.err, R.msg)))


def r06(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(r06_gen, ck.q(10500, 160000), tag="part")
    ck.cases(r06_recursive, ck.q(1500, 12000), tag="rec")
    ck.cases(r06_names, ck.q(1500, 10000), tag="name")
    std(ck)


def r07_gen(cx, rng, i):
    names = ("l1", "l2", "l3")
    def body(level, d, inp):
        """inp: inside a partial (then @partial-block may exist)"""
        out = []
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.25: n = {"k": "text", "s": rng.choice([b"x", b"\n", b" t ", b"|", b"\n  "])}
            elif x < 0.4: n = {"k": "mu", "expr": rng.choice([("path", 0, [rng.choice(["a", "b", "name", "bp1", "bp2"])], False, False), ("path", 0, ["index"], True, False), ("path", 1, ["a"], False, False), ("path", 0, [], False, True),
                                                          ("call", ("path", 0, ["hEnc"], False, False), [("path", 0, ["bp1"], False, False), ("path", 0, ["name"], False, False)], [])]), "esc": 2}
            elif x < 0.6 and inp: n = {"k": "part", "name": "@partial-block", "ctx": rng.choice([None, None, ("path", 0, ["a"], False, False), ("path", 0, ["o"], False, False)]), "hash": rng.choice([[], [], [("name", ("lit", "H"))]])}
            elif x < 0.75 and d:
                k = rng.choice(["each", "with", "hBp", "if", "hRep", "ifpb"])
                e = {"ifpb": ("call", ("path", 0, [rng.choice(["if", "unless"])], False, False), [("path", 0, ["partial-block"], True, False)], []),"each": ("call", ("path", 0, ["each"], False, False), [("path", 0, [rng.choice(["l", "a"])], False, False)], []), "with": ("call", ("path", 0, ["with"], False, False), [("path", 0, [rng.choice(["o", "a"])], False, False)], []),
                     "hBp": ("call", ("path", 0, ["hBp"], False, False), [("path", 0, ["a"], False, False), ("lit", "P2")], []), "if": ("call", ("path", 0, ["if"], False, False), [("path", 0, ["a"], False, False)], []),
                     "hRep": ("call", ("path", 0, ["hRep"], False, False), [("lit", 2)], [])}[k]
                bp = rng.choice([(), ("bp1",), ("bp1", "bp2"), ("bp2", "bp1")]) if k in ("each", "hBp") else rng.choice([(), ("bp1",)]) if k == "with" else ()
                n = {"k": "block", "expr": e, "bp": bp, "body": body(level, d - 1, inp), "clauses": [{"k": "else", "expr": None, "body": body(level, d - 1, inp)}] if rng.random() < 0.2 else []}
            elif d and (level < 3 or x < 0.8):
                nm = rng.choice(names[level:] + ("gone",)) if level < 3 else "gone"
                n = {"k": "pblock", "name": nm, "ctx": rng.choice([None, None, ("path", 0, ["o"], False, False)]), "hash": rng.choice([[], [], [("name", ("path", 0, ["b"], False, False))]]), "body": body(level, d - 1, inp)}
            elif level < 3: n = {"k": "part", "name": rng.choice(names[level:]), "ctx": None, "hash": []}
            else: n = {"k": "text", "s": b"-"}
            if n["k"] == "text" and out and out[-1]["k"] == "text": continue
            out.append(n)
        return out
    # l1 may use l2, l3; l2 may use l3
    t = body(0, 3, rng.random() < 0.05)
    parts = {nm: body(i + 1, 2, True) for i, nm in enumerate(names)}
    data = {"a": rng.choice([1, "A<", {"a": "in"}, [1, 2], None]), "b": "B", "name": "N", "l": [{"a": 1, "l": [7]}, {"a": 2}, "s"][:rng.randint(0, 3)], "o": {"a": "oa", "name": "on", "l": ["z"]}}
    fl = rng.choice([0] * 9 + [model.COMPAT])
    run(cx, t, data, parts, {"hEnc": "enc", "hBp": "bp", "hRep": "rep"}, fl, rng=rng)


def c_r07(r):
    c = Cfg(helpers=["id", "enc"], bhelpers=["blk", "bp", "rep"], partials=PN, missing=0.0, p_mu=0.3, p_block=0.25, p_partial=0.1, p_pblock=0.25, dynpartial=0.1, text=r.choice(["plain", "ws"]), bparams=0.6)
    return c, c, PN


def r07(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(r07_gen, ck.q(13500, 200000), tag="pb")
    ck.cases(case(c_r07), ck.q(2400, 40000), tag="mix")
    std(ck)


# ---------------------------------------------------------------- R11
def c_r11(r):
    c = Cfg(partials=PN, missing=0.02, text=r.choice(["plain", "ws"]), p_partial=0.15, tilde=0.1, helpers=["enc", "cat", "id", "safe"], bhelpers=["blk", "ctx"])
    return c, c, PN


def f_r11(r):
    fl = 0
    for f in (model.NOESC, model.NOINDENT, model.EXPLICIT, model.NOSTAND, model.COMPAT, model.USEDATA):
        if r.random() < 0.3: fl |= f
    return fl


def r11_strict(cx, rng, i):
    """strict / assume-objects over data where most paths exist"""
    c = Cfg(helpers=["id", "cat"], bhelpers=["ctx"], partials=PN[:2], missing=0.0, p_mu=0.5, p_block=0.25, p_partial=0.1, p_pblock=0.0, blocks=("with", "each", "section", "if"), keys=["a", "b", "c"], tilde=0.0, dataref=rng.random() < 0.3, lookup=False, builtin_errors=0)
    def val(d):
        if d <= 0: return rng.choice(["s<", 1, True, None, 0])
        return {k: val(d - 1) for k in ("a", "b", "c") if rng.random() < 0.95}
    t, parts = build(rng, c, c, PN[:2], depth=2, width=4)
    fl = rng.choice([model.STRICT, model.STRICT, model.ASSUME, model.STRICT | model.ASSUME])
    if rng.random() < 0.2: fl |= f_r11(rng) & ~model.COMPAT
    data = {k: val(3) for k in ("a", "b", "c")}
    run(cx, t, data, parts, tgen.helper_map(c), fl, rng=rng)


def r11_known(cx, rng, i):
    """known-helpers-only: unknown names are plain fields, calls of unknown helpers are refused"""
    c = Cfg(helpers=["id", "cat"] if rng.random() < 0.5 else [], bhelpers=[], partials=(), missing=0.0, lookup=True, blocks=("each", "if", "unless", "with", "section", "invsec"))
    t = Gen(rng, c).body(3, 5)
    data = tgen.rootdata(rng)
    h = {"hId": "id", "hCat": "cat", "a": "name", "b": "enc"}
    kh = rng.choice([None, "hId,hCat", "hId"])
    known = kh.split(",") if kh else []
    bi = ["helperMissing", "blockHelperMissing", "each", "if", "unless", "with", "log", "lookup"]
    m = model.Machine({}, h, model.KNOWNONLY, known=known)
    bad = unknown_calls(t, set(bi) | set(known) | {"hbsc_set_delimiters"})
    src = tgen.source(t, rng)
    R = cx.d.render(src, data, h=h, f=str(model.KNOWNONLY), kh=",".join(bi + known) if kh else None)
    cx.ev(); cx.seen((src, R.key())); cx.count("refused" if not R.ok else "rendered")
    if bad:
        if R.ok or R.err != 5 or b"knownHelpersOnly" not in R.msg: cx.fail("unknown helper accepted", "template %r known %r\ngot %r" % (src, known, R))
        return
    try: exp = ("ok", m.render(t, data))
    except model.HbsError as e: exp = ("err", e.num, e.msg)
    got = ("ok", R.out) if R.ok else ("err", R.err, R.msg)
    if exp != got: cx.fail("output differs", "template %r data %r known-helpers-only\nexpected %r\n     got %r" % (src, data, exp, got))


def unknown_calls(ns, known, scope=()):
    def bad(e):
        if e is None or e[0] != "call": return False
        if not (len(e[1][2]) == 1 and e[1][2][0] in known): return True
        return any(bad(x) for x in e[2]) or any(bad(x) for _, x in e[3])
    for n in ns:
        if n["k"] in ("mu", "block") and bad(n["expr"]): return True
        if n["k"] == "block":
            if unknown_calls(n["body"], known): return True
            for c in n.get("clauses") or []:
                if bad(c.get("expr")) or unknown_calls(c["body"], known): return True
    return False


def r11(ck):
    ck.rule = "distinct = (template, options, result) of templates that ran at least one helper or nested program"
    ck.build("asan")
    ck.cases(case(c_r11, flagsf=f_r11), ck.q(7800, 120000), tag="opt")
    ck.cases(r11_strict, ck.q(6000, 80000), tag="strict")
    ck.cases(r11_known, ck.q(3600, 40000), tag="known")
    std(ck)


TABLE = {"R01": r01, "R02": r02, "R03": r03, "R04": r04, "R05": r05, "R06": r06, "R07": r07, "R11": r11}
