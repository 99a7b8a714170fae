"""Generates templates as trees (for model.py) and writes them as source."""
import re
from drv import Safe, Fn

KEYS = ["a", "b", "c", "items", "obj", "x y", "n", "foo-bar", "é"]
IDKEYS = ["a", "b", "c", "items", "obj", "n", "foo-bar"]
STRS = ["", "x", "<b>", "a&b", "\"q\"", "it's", "`t`", "&amp;", "0", "long " * 5, "line1\nline2", "é✓", " pad ", "{{a}}", "[]", "false", "1 < 2 && 3 > 2", "\t"]


def value(r, depth=3, safe=True, fn=False):
    x = r.random()
    if depth > 0 and x < 0.55:
        if r.random() < 0.6:
            ks = [k for k in KEYS if r.random() < 0.75]
            r.shuffle(ks)
            return {k: value(r, depth - 1, safe, fn) for k in ks}
        return [value(r, depth - 1, safe, fn) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    x = r.random()
    if x < 0.5:
        s = r.choice(STRS)
        return Safe(s) if safe and r.random() < 0.12 else s
    if x < 0.68: return r.choice([0, 1, 2, -1, 7, 42, 1000000, -9007199254740993, 3])
    if x < 0.76: return r.choice([0.5, -2.25, 1e20, 0.0, 3.0, 1e-7, 123456.789])
    if x < 0.84: return True
    if x < 0.92: return False
    if fn and x < 0.97: return Fn("enc")
    return None


def rootdata(r, **kw):
    d = {k: value(r, r.choice([1, 2, 2, 3]), **kw) for k in KEYS if r.random() < 0.9}
    if "items" in d and r.random() < 0.6: d["items"] = [value(r, 2, **kw) for _ in range(r.randint(0, 4))]
    if "obj" in d and r.random() < 0.6: d["obj"] = {k: value(r, 1, **kw) for k in r.sample(KEYS, r.randint(0, 5))}
    return d


class Cfg:
    depth = 3
    width = 4
    helpers = ["enc", "cat", "id", "add", "null", "safe", "list", "hash", "scope", "name", "data"]      # registered as hEnc...
    bhelpers = ["blk", "inv", "ctx", "rep", "bp", "frame"]
    partials = ()
    params = ("p0", "p1", "p2", "q")
    text = "plain"       # plain | ws
    tilde = 0.08
    missing = 0.02       # unknown helper calls
    lits = True
    dataref = True
    blocks = ("each", "if", "unless", "with", "section", "invsec", "bhelper")
    p_block, p_partial, p_comment, p_mu, p_raw, p_pblock = 0.25, 0.1, 0.05, 0.4, 0.01, 0.04
    builtin_errors = 0.005
    chains = True
    bparams = 0.4
    dynpartial = 0.25
    keys = KEYS
    idkeys = IDKEYS
    nowlit = False
    trouble = 0.0
    nullhelper = True
    lookup = True

    def __init__(self, **kw): self.__dict__.update(kw)


def hname(impl): return "h" + impl[0].upper() + impl[1:]


def helper_map(cfg, r=None): return {hname(i): i for i in list(cfg.helpers) + list(cfg.bhelpers)}


class Gen:
    def __init__(self, r, cfg):
        self.r, self.c = r, cfg
        self.scope = []

    # ---- expressions
    def seg(self):
        return self.r.choice(self.c.keys)

    def path(self, data_ok=True):
        r = self.r
        x = r.random()
        if self.scope and x < 0.25:
            return ("path", 0, [r.choice(r.choice(self.scope))] + [self.anyseg() for _ in range(r.choice([0, 0, 1, 2]))], False, r.random() < 0.07)
        if data_ok and self.c.dataref and x < 0.4:
            y = r.random()
            if y < 0.6: return ("path", r.choice([0, 0, 0, 1, 1, 2]), [r.choice(["index", "key", "first", "last", "_parent", "custom"])], True, False)
            return ("path", 0, ["root"] + [self.anyseg() for _ in range(r.choice([0, 1, 1, 2]))], True, False)
        ups = r.choice([0] * 8 + [1, 1, 1, 2, 3])
        n = r.choice([0, 1, 1, 1, 1, 2, 2, 3])
        segs = [self.anyseg(i) for i in range(n)]
        this = False
        if n == 0 and ups == 0: this = True
        elif ups == 0 and r.random() < 0.15: this = True
        return ("path", ups, segs, False, this)

    def anyseg(self, i=1):
        if i and self.r.random() < 0.15: return self.r.choice(["0", "1", "2", "7"])
        return self.seg()

    def lit(self):
        r = self.r
        return ("lit", r.choice([True, False, None, 0, 1, 5, -3, 12, "x", "<&>", "it's", "say \"hi\"", "", "0", "a b", "{{no}}" if False else "z", "é"]))

    def param(self, depth):
        r = self.r
        x = r.random()
        if self.c.lits and x < 0.35: return self.lit()
        if depth > 0 and x < 0.55 and self.c.helpers: return self.callexpr(depth - 1, sub=True)
        return self.path()

    def hashargs(self, depth):
        r = self.r
        if r.random() < 0.7: return []
        return [(r.choice(["k", "v", "a", "b", "includeZero", "long-key", "class"]), self.param(depth)) for _ in range(r.choice([1, 1, 2, 3]))]

    def callexpr(self, depth, sub=False):
        r = self.r
        if r.random() < self.c.missing:
            return ("call", ("path", 0, ["noSuchHelper"], False, False), [self.param(depth)], [])
        if self.c.lookup and r.random() < 0.15:
            return ("call", ("path", 0, ["lookup"], False, False), [self.path(), r.choice([self.path(), self.lit(), ("lit", self.seg()), ("lit", r.choice([0, 1, 2, -1]))])], [])
        h = hname(r.choice(self.c.helpers))
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        ps = [self.param(depth) for _ in range(n)]
        hs = self.hashargs(depth)
        return ("call", ("path", 0, [h], False, False), ps, hs)

    # ---- nodes
    def text(self):
        r = self.r
        if self.c.text == "ws":
            s = "".join(r.choice(["\n", "\n", "\r\n", " ", "  ", "\t", "x", "y z", "-"]) for _ in range(r.choice([1, 1, 2, 3, 5])))
        else:
            s = r.choice(["x", " ", "a b", "\n", "text ", "<p>", "&", " - ", "\n  ", "é", "'\"", "1\n2\n", ",", ";"]) * r.choice([1, 1, 1, 2])
        return {"k": "text", "s": s.encode()}

    def strip(self, n, close=False):
        r = self.r
        n["sl"], n["sr"] = r.random() < self.c.tilde, r.random() < self.c.tilde
        if close: n["csl"], n["csr"] = r.random() < self.c.tilde, r.random() < self.c.tilde
        return n

    def body(self, depth, width=None):
        r = self.r
        out = []
        for _ in range(r.randint(0 if depth < self.c.depth else 1, width or self.c.width)):
            n = self.node(depth)
            if n["k"] == "text" and out and out[-1]["k"] == "text": continue
            out.append(n)
        return out

    def node(self, depth):
        r, c = self.r, self.c
        x = r.random()
        if depth > 0 and x < c.p_block: return self.block(depth)
        x -= c.p_block
        if x < 0: x = 0.999
        if c.partials and x < c.p_partial: return self.partial(depth)
        x -= c.p_partial
        if c.partials and depth > 0 and 0 <= x < c.p_pblock: return self.pblock(depth)
        x -= c.p_pblock
        if 0 <= x < c.p_comment: return self.strip({"k": "com", "s": r.choice([b" hi ", b"", b"x", b"a\nb", b" no ! "]), "long": r.random() < 0.4})
        x -= c.p_comment
        if 0 <= x < c.p_mu:
            if r.random() < 0.35 and c.helpers: e = self.callexpr(2)
            else: e = self.path()
            if e[0] == "call" and not e[2] and not e[3]: e = e[1]
            return self.strip({"k": "mu", "expr": e, "esc": r.choice([2, 2, 2, 2, 3, 4])})
        return self.text()

    def scoped(self, names, fn):
        if names: self.scope.append(names)
        try: return fn()
        finally:
            if names: self.scope.pop()

    def bp(self, n):
        r = self.r
        if r.random() > self.c.bparams: return ()
        return tuple(r.sample(self.c.params, r.randint(1, n)))

    def blockhead(self, kinds=None):
        """-> expr, bp"""
        r = self.r
        kind = r.choice(kinds or self.c.blocks)
        if kind in ("each", "if", "unless", "with"):
            ps = [self.param(1)] if r.random() > self.c.builtin_errors else r.choice([[], [self.path(), self.path()]])
            if kind == "each" and ps and r.random() < 0.6: ps = [self.path()]
            hs = []
            if kind in ("if", "unless") and r.random() < 0.2: hs = [("includeZero", self.lit())]
            elif r.random() < 0.05: hs = [("k", self.lit())]
            e = ("call", ("path", 0, [kind], False, False), ps, hs)
            if not ps and not hs: e = e[1]
            return kind, e, self.bp(2) if kind == "each" else self.bp(1) if kind == "with" else ()
        if kind == "bhelper" and self.c.bhelpers:
            h = r.choice(self.c.bhelpers)
            ps = [self.param(1) for _ in range(r.choice([0, 1, 1, 2]))]
            if h == "rep": ps = [("lit", r.choice([0, 1, 2, 3]))]
            if h == "ctx" and not ps: ps = [self.path()]
            hs = self.hashargs(1)
            if h == "frame": hs = [("custom", self.param(1))]
            e = ("call", ("path", 0, [hname(h)], False, False), ps, hs)
            if not ps and not hs: e = e[1]
            return kind, e, self.bp(2) if h == "bp" else ()
        p = self.path()
        return kind, p, ()

    def block(self, depth):
        r = self.r
        kind, e, bp = self.blockhead()
        inv = kind == "invsec" or (kind not in ("bhelper",) and r.random() < 0.06)
        n = {"k": "block", "inv": inv, "expr": e, "bp": bp if not inv else ()}
        n["body"] = self.scoped(n["bp"], lambda: self.body(depth - 1))
        cl = []
        if r.random() < 0.4:
            if self.c.chains:
                while len(cl) < 3 and r.random() < 0.3:
                    k2, e2, bp2 = self.blockhead(("if", "if", "each", "with", "section", "unless"))
                    cl.append(self.strip({"k": "else", "expr": e2, "bp": bp2, "body": self.scoped(bp2, lambda: self.body(depth - 1))}))
            if not cl or r.random() < 0.6:
                cl.append(self.strip({"k": "else", "expr": None, "body": self.body(depth - 1), "caret": r.random() < 0.2}))
        n["clauses"] = cl
        return self.strip(n, True)

    def pname(self):
        r = self.r
        p = r.choice(self.c.partials)
        if r.random() < self.c.dynpartial:
            if "cat" in self.c.helpers and len(p) > 1 and r.random() < 0.5:
                return ("call", ("path", 0, ["hCat"], False, False), [("lit", p[:1]), ("lit", p[1:])], [])
            return ("call", ("path", 0, ["hId"], False, False), [("lit", p)], [])
        return p

    def partial(self, depth):
        r = self.r
        return self.strip({"k": "part", "name": self.pname(), "ctx": self.param(1) if r.random() < 0.4 else None, "hash": self.hashargs(1)})

    def pblock(self, depth):
        r = self.r
        n = {"k": "pblock", "name": self.pname(), "ctx": self.path() if r.random() < 0.3 else None, "hash": self.hashargs(1)}
        n["body"] = self.body(depth - 1)
        if not isinstance(n["name"], str): n["name"] = r.choice(self.c.partials)
        return self.strip(n, True)


# ---------------------------------------------------------------- source
ID = re.compile(r"[A-Za-z_$é][\w$é-]*\Z", re.U)
RESERVED = ("true", "false", "null", "undefined", "as", "else", "this")


class Writer:
    def __init__(self, r=None, o="{{", c="}}"):
        self.r, self.o, self.cl = r, o, c

    def alt(self, p=0.5): return self.r is not None and self.r.random() < p

    def seg(self, s):
        if ID.match(s) and s not in RESERVED and not self.alt(0.05): return s
        return "[" + s + "]"

    def path(self, e):
        _, ups, segs, data, this = e
        sep = "/" if self.alt(0.15) else "."
        s = ("@" if data else "") + "../" * ups
        body = sep.join(self.seg(x) for x in segs)
        if not segs:
            if ups: return s[:-1] if not self.alt(0.3) else s + "this" if False else s[:-1]
            return "this" if not self.alt(0.3) else "."
        if this: s += "this" + sep if self.alt() else "./"
        return s + body

    def lit(self, v):
        if v is True: return "true"
        if v is False: return "false"
        if v is None: return "null" if not self.alt(0.4) else "undefined"
        if isinstance(v, int): return str(v)
        if '"' in v and "'" in v: return '"' + v.replace('"', '\\"') + '"'
        if '"' in v: return "'" + v + "'" if not self.alt(0.3) else '"' + v.replace('"', '\\"') + '"'
        if "'" in v: return '"' + v + '"'
        return '"' + v + '"' if not self.alt(0.3) else "'" + v + "'"

    def expr(self, e, sub=True):
        if e[0] == "lit": return self.lit(e[1])
        if e[0] == "path": return self.path(e)
        s = self.path_plain(e[1]) + self.args(e[2], e[3])
        return "(" + s + ")" if sub else s

    def sp(self): return " " if not self.alt(0.1) else self.r.choice(["  ", "\n", "\t", " \n "])

    def args(self, ps, hs):
        s = "".join(self.sp() + self.expr(p) for p in ps)
        return s + "".join(self.sp() + (k if ID.match(k) else "[" + k + "]") + "=" + self.expr(x) for k, x in hs)

    def tag(self, pre, body, sl, sr, close=None):
        return self.o + ("~" if sl else "") + pre + body + ("~" if sr else "") + (close or self.cl)

    def bps(self, bp): return " as |" + " ".join(bp) + "|" if bp else ""

    def nodes(self, ns): return b"".join(self.node(n) for n in ns)

    def headname(self, e): return self.path_plain(e if e[0] == "path" else e[1])

    def path_plain(self, e):
        r, self.r = self.r, None
        try: return self.path(e)
        finally: self.r = r

    def head(self, e):
        if e[0] == "path": return self.path_plain(e)
        return self.path_plain(e[1]) + self.args(e[2], e[3])

    def node(self, n):
        k = n["k"]
        if k == "text": return n["s"]
        sl, sr = n.get("sl"), n.get("sr")
        if k == "mu":
            e = self.expr(n["expr"], False)
            if n["esc"] == 3 and self.o == "{{": return ("{{" + ("~" if sl else "") + "{" + e + "}" + ("~" if sr else "") + "}}").encode()
            if n["esc"] != 2: return self.tag("&" + ("" if not self.alt(0.3) else " "), e, sl, sr).encode()
            return self.tag(" " if self.alt(0.1) else "", e, sl, sr).encode()
        if k == "com":
            if n["long"]: return (self.o + ("~" if sl else "") + "!--").encode() + n["s"] + ("--" + ("~" if sr else "") + self.cl).encode()
            return (self.o + ("~" if sl else "") + "!").encode() + n["s"] + (("~" if sr else "") + self.cl).encode()
        if k == "raw":
            h = self.head(n["expr"])
            return ("{{{{" + h + "}}}}").encode() + n["text"] + ("{{{{/" + self.headname(n["expr"]) + "}}}}").encode()
        if k == "part":
            nm = n["name"] if isinstance(n["name"], str) else self.expr(n["name"])
            ps = [n["ctx"]] if n.get("ctx") is not None else []
            return self.tag(">", (" " if not self.alt(0.2) else "") + nm + self.args(ps, n.get("hash") or []), sl, sr).encode()
        if k == "pblock":
            nm = n["name"]
            ps = [n["ctx"]] if n.get("ctx") is not None else []
            return (self.tag("#>", " " + nm + self.args(ps, n.get("hash") or []), sl, sr).encode() + self.nodes(n["body"]) +
                    self.tag("/", nm, n.get("csl"), n.get("csr")).encode())
        if k == "delim":
            s = (self.o + "=" + n["o"] + " " + n["c"] + "=" + self.cl).encode()
            self.o, self.cl = n["o"], n["c"]
            return s
        if k == "block":
            out = [self.tag("^" if n.get("inv") else "#", self.head(n["expr"]) + self.bps(n.get("bp")), sl, sr).encode(), self.nodes(n["body"])]
            for c in n.get("clauses") or []:
                if c.get("expr") is None:
                    out.append(self.tag("^" if c.get("caret") else "else", "", c.get("sl"), c.get("sr")).encode())
                else:
                    out.append(self.tag("else ", self.head(c["expr"]) + self.bps(c.get("bp")), c.get("sl"), c.get("sr")).encode())
                out.append(self.nodes(c["body"]))
            out.append(self.tag("/", self.headname(n["expr"]), n.get("csl"), n.get("csr")).encode())
            return b"".join(out)
        raise AssertionError(k)


def source(nodes, r=None, **kw): return Writer(r, **kw).nodes(nodes)
