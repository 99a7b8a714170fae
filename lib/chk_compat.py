"""R08: mustache compatibility."""
import copy
import model, tgen
from drv import Fn, Safe
from model import COMPAT, LAMBDAS
from tgen import Cfg, Gen
from chk_lang import run, deep_tree, strip_partials, build, std, PN, big, drvdec

DEF = ("{{", "}}")
DELIMS = [("<%", "%>"), ("|", "|"), ("||", "||"), ("[[", "]]"), ("(", ")"), ("<<%", "%>>"), ("@", "@"), ("$", "$"), ("é", "é"), ("<", ">"), ("{", "}"), ("{%", "%}"), ("\U0001f600", "\u20ac"),
          ("<<", ">>"), ("!", "?"), ("#", "#"), ("%%%%", "%"), ("~", "~"), ("a", "b"), ("-->", "<--"), ("\"", "\""), ("'", "`"), ("&lt;", "&gt;"), ("{{{", "}}}"), ("[", "|"), ("/", "/"), ("\n", "\n"), ("<%hbs", "%>")]


class Skip(Exception): pass


class DWriter(tgen.Writer):
    """source under changing delimiters; text nodes lose what would be a tag (call before the model runs)"""
    def tag(self, pre, body, sl, sr, close=None):
        if (self.o, self.cl) != DEF:
            if any(ch in pre + body for ch in self.cl): raise Skip()
            if (sl or sr) and "~" in self.cl: raise Skip()
            if pre[:1] in ("=",) or (not pre and body.startswith("=")): raise Skip()
        return tgen.Writer.tag(self, pre, body, sl, sr, close)

    def node(self, n):
        if n["k"] == "text":
            s = n["s"].replace(b"\\", b"")
            for ch in set(self.o.encode()):
                if self.o != "{{": s = s.replace(bytes([ch]), b"")
                else: s = s.replace(b"{", b"")
            if s.endswith(b"{"): s += b" " # a brace right before a tag: a known finding
            n["s"] = s
            return s
        if n["k"] == "com" and (self.o, self.cl) != DEF:
            if any(ch in n["s"].decode("latin1") + "-!~" for ch in self.cl): raise Skip()
        return tgen.Writer.node(self, n)


def clean(nodes):
    """empty text nodes out, neighbours merged, everywhere"""
    out = []
    for n in nodes:
        if n["k"] == "text":
            if not n["s"]: continue
            if out and out[-1]["k"] == "text": out[-1]["s"] += n["s"]; continue
        elif n["k"] in ("block", "pblock"):
            n["body"] = clean(n["body"])
            for c in n.get("clauses") or (): c["body"] = clean(c["body"])
        out.append(n)
    return out


def add_delims(rng, nodes, p, top):
    """delimiter changes put between the nodes"""
    out = []
    for n in nodes:
        if n["k"] in ("block", "pblock") and not top:
            n["body"] = add_delims(rng, n["body"], p, top)
            for c in n.get("clauses") or (): c["body"] = add_delims(rng, c["body"], p, top)
        if rng.random() < p:
            o, c = rng.choice(DELIMS + [DEF] * 5)
            if "\n" not in o: out.append({"k": "delim", "o": o, "c": c})
        if n["k"] == "text" and rng.random() < 0.5:
            n["s"] += rng.choice([b"{{x}}", b"}}", b"{{{", b"{{=< >=}}", b"<%x%>", b"|x|", b"{{", b"{", b"[[x]]", b"\n", b"{{!", b"}}}", b"{{{{x}}}}", b"{{#x}}", b"%>"])
        out.append(n)
    return out


def esc_ok(nodes):
    for n in nodes:
        if n["k"] == "mu" and n["esc"] == 3: n["esc"] = 4
        if n["k"] in ("block", "pblock"):
            esc_ok(n["body"])
            for c in n.get("clauses") or (): esc_ok(c["body"])


def delim_case(cx, rng, i):
    c = Cfg(helpers=["id", "cat"], bhelpers=["ctx", "rep"], partials=PN, text=rng.choice(["plain", "plain", "ws"]), tilde=rng.choice([0, 0.05]), missing=0, lookup=False, bparams=0.2, p_comment=0.08)
    t, parts = build(rng, c, c, PN, depth=2, width=6)
    t = add_delims(rng, t, 0.3, False)
    for k in parts:
        if rng.random() < 0.4: parts[k] = add_delims(rng, parts[k], 0.3, False)
    esc_ok(t)
    for v in parts.values(): esc_ok(v)
    try:
        for _ in range(2): # the second time the texts are what they will be
            src = DWriter(None).nodes(t)
            psrc = {k: drvdec(DWriter(None).nodes(v)) for k, v in parts.items()}
            t = clean(t)
            parts = {k: clean(v) for k, v in parts.items()}
    except Skip: cx.count("skipped: closing delimiter inside a tag"); return
    if src.count(b"=") < 2 and rng.random() < 0.8: return
    cx.count("delimiter changes", count(t) + sum(count(v) for v in parts.values()))
    run(cx, t, big(rng, tgen.rootdata(rng)), parts, tgen.helper_map(c), COMPAT | (model.NOSTAND if rng.random() < 0.1 else 0), src=src, psrc=psrc)


def count(nodes):
    return sum(1 if n["k"] == "delim" else sum(count(b) for b in [n.get("body") or []] + [c["body"] for c in n.get("clauses") or ()]) for n in nodes)


def delim_seq(cx, rng, i):
    """runs of changes with one tag each: what is a tag and what is text follows from the construction"""
    cur = DEF
    src, want = "", ""
    data = {"x": "<v&>", "n": {"y": "Y"}}
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        o, c = cur
        if k < 0.7 and src.endswith("{"): src += " "; want += " "
        if k < 0.35:
            o2, c2 = rng.choice(DELIMS + [DEF] * 4)
            if "\n" in o2: continue
            sp = lambda lo=0: " " * rng.choice([lo, lo, lo + 1, lo + 3])
            src += o + "=" + sp() + o2 + sp(1) + c2 + sp() + "=" + c
            cur = (o2, c2)
        elif k < 0.7:
            e, w = rng.choice([("x", "&lt;v&amp;&gt;"), ("&x", "<v&>"), ("& x", "<v&>"), (" x ", "&lt;v&amp;&gt;"), ("n.y", "Y"), ("zz", ""), ("!x", ""), ("#n", None), ("^zz", None)])
            if any(ch in "#^/!&. xnyz" for ch in c) or any(ch in c for ch in "#^/") : continue
            if e == "#n":
                src += o + "#n" + c + o + "y" + c + o + "/n" + c; want += "Y"
            elif e == "^zz": src += o + "^zz" + c + "q" + o + "/zz" + c; want += "q"
            else: src += o + e + c; want += w
        else:
            lit = rng.choice(["text", "{{x}}", "}}", "<%x%>", "|x|", "{{{x}}}", "{{", "{ {", "{{!c}}", "{{=| |=}}", "$x$", "i\ni", " - ", "é", "[[x]]", "{{#n}}", "{", "}", "{{{{raw}}}}", "]]", "(x)"])
            if any(ch in lit for ch in o): continue
            if o.startswith("{"): lit = lit.replace("{", "")
            if cur == DEF and src.endswith("}") and lit.startswith("}"): lit = " " + lit
            src += lit; want += lit
    if cur == DEF and src.endswith("{"): src += " "; want += " "
    R = cx.d.render(src.encode(), data, f=str(COMPAT))
    cx.ev(); cx.seen((src, want)); cx.count("delimiter sequences")
    if not R.ok or R.out != want.encode():
        cx.fail("delimiter sequence differs", "template %r\nexpected %r\n     got %r" % (src, want.encode(), R))


def delim_bad(cx, rng, i):
    """malformed changes are errors"""
    pre = "".join(rng.choice(["text ", "{{x}}", "{{=| |=}}|x||={{ }}=|", "\n", "{ ", "é"]) for _ in range(rng.randint(0, 3)))
    post = "".join(rng.choice(["text ", "{{x}}", "\n", "aaaaaaaa"]) for _ in range(rng.randint(1, 3)))
    bad = rng.choice(["{{=<%%>=}}", "{{=<%=}}", "{{=<% %>}}", "{{=<% %> }}", "{{= <% =}}", "{{=<% %>= }}", "{{=<% %>=}", "{{=a b=c}}", "{{==}}", "{{= =}}", "{{=  =}}", "{{=<% =%> x}}"])
    post = post.replace("=", "")
    if bad in ("{{=<%%>=}}", "{{=<%=}}", "{{==}}"): post = post.replace(" ", "")
    src = pre + bad + post
    where = rng.choice(["main", "partial"])
    kw = {"p": {"p": src}} if where == "partial" else {}
    R = cx.d.render((src if where == "main" else "a{{> p}}b").encode(), {"x": 1}, f=str(COMPAT), **kw)
    cx.ev(); cx.seen((bad, R.key())); cx.count("malformed changes")
    if R.ok or not (R.err == 1 and b"elimiter change" in R.msg or R.err == 4 and len(bad + post) < 9):
        cx.fail("malformed delimiter change accepted", "template %r (%s)\ngot %r" % (src, where, R))
    elif rng.random() < 0.1:
        R = cx.d.render(b"{{x}}", {"x": 1}, f=str(COMPAT))
        if not R.ok or R.out != b"1": cx.fail("state left over", "after %r: %r" % (src, R))


# ---------------------------------------------------------------- names of enclosing contexts
def lookup_case(cx, rng, i):
    c = Cfg(helpers=["id", "enc", "scope"], bhelpers=["ctx", "frame", "bp"], partials=PN, missing=0.0, p_mu=0.5, p_block=0.35, p_partial=0.08, p_pblock=0.02, keys=["a", "b", "c", "n", "obj", "items"],
            blocks=("each", "with", "with", "section", "section", "section", "bhelper", "if", "invsec"), bparams=0.2, tilde=0.01, lookup=False, params=("p0", "a"), text=rng.choice(["plain", "plain", "ws"]), depth=4)
    def val(d):
        if d <= 0 or rng.random() < 0.25: return rng.choice(["s<", 1, True, None, 0, "", False, 2.5])
        if rng.random() < 0.25: return [val(d - 1) for _ in range(rng.randint(0, 3))]
        return {k: val(d - 1) for k in ("a", "b", "c", "n", "obj", "items") if rng.random() < 0.4}
    t, parts = build(rng, c, c, PN, depth=4)
    fl = COMPAT
    if rng.random() < 0.1: fl |= model.STRICT
    if rng.random() < 0.1: fl |= LAMBDAS
    if rng.random() < 0.1: fl |= model.NOSTAND
    d = {k: val(3) for k in ("a", "b", "c", "n", "obj", "items")}
    run(cx, t, d, parts, tgen.helper_map(c), fl, rng=rng)


def lookup_deep(cx, rng, i):
    t, parts, data = deep_tree(rng, True)
    run(cx, t, data, parts, {"hEnc": "enc"}, COMPAT, rng=rng)
    cx.count("deep chains of contexts")


def missing_partial(cx, rng, i):
    """a partial that does not exist renders nothing, wherever it is"""
    T = [("{{> gone}}", ""), ("{{> (hId \"gone\")}}", ""), ("{{> gone a=1}}", ""), ("{{> gone x}}", ""), ("{{#> gone}}fallback{{x}}{{/gone}}", "fallback1"), ("{{> have}}", "<1>"), ("t", "t"),
         ("{{#with n}}{{> gone}}{{x}}{{/with}}", "1"), ("{{#each l}}{{> gone}}{{> have}}{{/each}}", "<1><1>"), ("{{> outer}}", "[<1>]"), ("{{x}}", "1")]
    pick = [rng.choice(T) for _ in range(rng.randint(1, 8))]
    src, want = "".join(a for a, _ in pick), "".join(b for _, b in pick)
    R = cx.d.render(src.encode(), {"x": 1, "n": {"y": 1}, "l": [{}, {}]}, h={"hId": "id"}, p={"have": "<{{x}}>", "outer": "[{{> gone2}}{{> have}}]"}, f=str(COMPAT))
    cx.ev(); cx.seen((src, want)); cx.count("missing partials", src.count("gone}}"))
    if not R.ok or R.out != want.encode(): cx.fail("missing partial differs", "template %r\nexpected %r\n     got %r" % (src, want, R))


# ---------------------------------------------------------------- lambdas
def lambda_case(cx, rng, i):
    P = lambda *s: ("path", 0, list(s), False, False)
    fns = ["t", "v", "w", "f", "pl", "no", "yes"]
    custom = rng.random() < 0.35
    def text(): return {"k": "text", "s": rng.choice([b"x", b" a b ", b"<&>", b"\n", b"| ", b"1\n2", b"e\xc3\xa9"])}
    def sect_body(d):
        out = []
        for _ in range(rng.randint(0, 4)):
            x = rng.random()
            if x < 0.4: out.append(text())
            elif x < 0.7: out.append({"k": "mu", "expr": P(rng.choice(["x", "planet", "zz", "v"])), "esc": rng.choice([2, 2, 3, 4])})
            elif d: out.append({"k": "block", "inv": rng.random() < 0.3, "expr": P(rng.choice(["x", "l", "t", "w", "zz", "o"])), "bp": (), "body": sect_body(d - 1), "clauses": []})
        return model.merge(out)
    def body(d, top):
        out = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if custom and top and x < 0.25: o, c = rng.choice([("|", "|"), ("<%", "%>"), DEF, ("[[", "]]")]); out.append({"k": "delim", "o": o, "c": c})
            elif x < 0.35: out.append(text())
            elif x < 0.5: out.append({"k": "mu", "expr": P(rng.choice(["v", "v", "w", "f", "pl", "x", "t"])), "esc": rng.choice([2, 2, 4])})
            elif x < 0.8:
                b = sect_body(2) if not custom or rng.random() < 0.2 else model.merge([text() for _ in range(rng.randint(0, 2))])
                out.append({"k": "block", "inv": rng.random() < 0.2, "expr": P(rng.choice(["t", "t", "t", "w", "w", "v", "f", "no", "yes", "x"])), "bp": (), "body": b, "clauses": []})
            elif d: out.append({"k": "block", "inv": False, "expr": rng.choice([P("l"), P("o"), ("call", P("with"), [P("o")], []), ("call", P("each"), [P("l")], [])]), "bp": (), "body": body(d - 1, False), "clauses": []})
            elif x < 0.95: out.append({"k": "part", "name": rng.choice(["pa", "pb"]), "ctx": None, "hash": []})
        return model.merge(out)
    t = body(2, True)
    parts = {"pa": body(0, True), "pb": body(1, True)}
    for p in parts.values(): p[:] = strip_partials(p)
    try:
        for _ in range(2):
            src = DWriter(None).nodes(t)
            psrc = {k: drvdec(DWriter(None).nodes(v)) for k, v in parts.items()}
            t = clean(t); parts = {k: clean(v) for k, v in parts.items()}
    except Skip: return
    data = {"x": rng.choice(["X<", 1, True, {"planet": "inner"}]), "planet": rng.choice(["Earth", "<&", ""]), "zz2": 1, "l": [{"planet": "Mars"}, {"x": 2}][:rng.randint(0, 2)], "o": {"planet": "Venus", "y": 1},
            "t": Fn("lamtext"), "v": Fn("lamvar"), "w": Fn("lamtwice"), "f": Fn("lamfalse"), "pl": Fn("lamplanet"), "no": Fn("lamfalse"), "yes": Fn("lamtext")}
    h = {}
    if rng.random() < 0.2: h["t"] = "name"
    cx.count("lambda templates")
    run(cx, t, data, parts, h, COMPAT | LAMBDAS, src=src, psrc=psrc)


def findings(cx, rng, i):
    """the two known deviations, by their exact inputs"""
    D = {"x": "X", "planet": "Earth", "t": Fn("lamtext"), "o": {"t": Fn("lamtext"), "v": Fn("lamvar"), "planet": "Earth", "x": "X"}}
    for key, src, want in (("lambda text under custom delimiters", b"{{=| |=}}|#t|a|x|b|/t|", b"<aXb>"),
                           ("dotted lambda section", b"{{#o.t}}a{{x}}b{{/o.t}}", b"<aXb>"),
                           ("brace before a custom tag", b"{{=| |=}}{|x|", b"{X"), ("braces before a custom tag", b"{{=| |=}}{{|x|", b"{{X"),
                           ("dotted lambda interpolation", b"{{o.v}}", b"Earth")):
        R = cx.d.render(src, D, f=str(COMPAT | LAMBDAS))
        cx.ev()
        if not R.ok or R.out != want: cx.fail(key, "template %r\nexpected %r\n     got %r" % (src, want, R))


def r08(ck):
    ck.rule = "distinct = (template, result) of templates that ran at least one nested program, and sequences of delimiter changes"
    ck.build("asan")
    ck.cases(lookup_case, ck.q(4500, 80000), tag="up")
    ck.cases(lookup_deep, ck.q(3000, 40000), tag="deep")
    ck.cases(delim_case, ck.q(6000, 100000), tag="delim")
    ck.cases(delim_seq, ck.q(6000, 100000), tag="seq")
    ck.cases(delim_bad, ck.q(1200, 12000), tag="bad")
    ck.cases(missing_partial, ck.q(1200, 12000), tag="gone")
    ck.cases(lambda_case, ck.q(6000, 100000), tag="lam")
    ck.cases(findings, 1, workers=1, tag="known")
    std(ck)
    ck.assumptions.append("only blanks separate the two delimiters of a change; texts avoid backslashes and the characters of the current open delimiter")


TABLE = {"R08": r08}
