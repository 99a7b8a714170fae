"""R12: the instructions templates compile to, in every mode of the compiler."""
import re
import tgen, model
from tgen import Cfg, Gen, ID
from chk_lang import PN, build as mkparts
from chk_module import firstdiff

STRINGP, TRACK, NOESC, KNOWNONLY, NOINDENT, EXPLICIT, ALTDEC, LAMBDAS = 2, 4, 8, 16, 32, 128, 512, 4096
BUILTINS = ("helperMissing", "blockHelperMissing", "each", "if", "unless", "with", "log", "lookup", "hbsc_set_delimiters")


class Num(str): """a number as it is written"""
class Undef: """undefined"""


class Refused(Exception):
    def __init__(self, num, text, at): self.num, self.text, self.at = num, text, at


class Unjudged(Exception): pass


class E(tuple):
    """an expression at one place"""
    def __new__(cls, e):
        if e[0] == "call": e = ("call", E(e[1]), [E(x) for x in e[2]], [(k, E(x)) for k, x in e[3]])
        return tuple.__new__(cls, e)


def unique(ns):
    for n in ns:
        for k in ("expr", "ctx"):
            if n.get(k) is not None: n[k] = E(n[k])
        if isinstance(n.get("name"), tuple): n["name"] = E(n["name"])
        if n.get("hash"): n["hash"] = [(k, E(x)) for k, x in n["hash"]]
        if n.get("more"): n["more"] = [E(x) for x in n["more"]]
        if n.get("body"): unique(n["body"])
        if n.get("clauses"): unique(n["clauses"])


MARK = re.compile(rb"\x01([0-9]+)\x02|\x03([0-9]+)\x02")


def places(marked):
    """the source and, by number, first and last line and column of what is between two marks"""
    out, pos, last, at = [], {}, {}, 0
    line, col, end = 1, 0, (1, 0)
    for m in MARK.finditer(marked):
        for c in marked[at:m.start()]:
            end = (line, col)
            if c == 10: line, col = line + 1, 0
            else: col += 1
        out.append(marked[at:m.start()]); at = m.end()
        if m.group(1): pos[int(m.group(1))] = (line, col)
        else: last[int(m.group(2))] = end
    out.append(marked[at:])
    return b"".join(out), {k: pos[k] + last[k] for k in pos}


class Wr(tgen.Writer):
    """writes a tree; how paths are written is the same everywhere in a template, so that their text is known"""
    def __init__(self, sep, this, dot):
        tgen.Writer.__init__(self, None)
        self.sep, self.this, self.dot = sep, this, dot
        self.ids, self.keep = {}, []

    def mark(self, what, s):
        """remembers where something is"""
        i = self.ids.setdefault(what if isinstance(what, tuple) and not isinstance(what, E) else id(what), len(self.ids))
        self.keep.append(what)
        if isinstance(s, bytes): return b"\x01%d\x02" % i + s + b"\x03%d\x02" % i
        return "\x01%d\x02" % i + s + "\x03%d\x02" % i

    def text(self, e, plain=False):
        """the text of a path: without brackets when it is the text the compiler sees"""
        _, ups, segs, data, this = e
        sg = (lambda s: s) if plain else self.seg
        s = ("@" if data else "") + "../" * ups
        if not segs: return s[:-1] if ups else s + ("." if self.dot else "this")
        if this: s += self.this
        return s + self.sep.join(sg(x) for x in segs)

    def seg(self, s):
        return s if ID.match(s) and s not in tgen.RESERVED else "[" + s + "]"

    def path(self, e): return self.mark(e, self.lit(e[1]) if e[0] == "lit" else self.text(e))

    def expr(self, e, sub=True):
        if e[0] != "call": return self.path(e)
        s = self.path(e[1]) + self.args(e[2], e[3])
        return self.mark(e, "(" + s + ")") if sub else s

    def args(self, ps, hs):
        s = "".join(" " + self.expr(p) for p in ps)
        if hs: s += " " + self.mark(("hash", id(hs)), " ".join((k if ID.match(k) else "[" + k + "]") + "=" + self.expr(x) for k, x in hs))
        return s

    def lit(self, v):
        if isinstance(v, Num): return str(v)
        if v is Undef: return "undefined"
        return tgen.Writer.lit(self, v)

    def headname(self, e):
        e = e[1] if e[0] == "call" else e
        return self.lit(e[1]) if e[0] == "lit" else self.text(e)

    def head(self, e): return self.path(e[1] if e[0] == "call" else e) + (self.args(e[2], e[3]) if e[0] == "call" else "")

    def node(self, n): return self.mark(n, self.node_(n))

    def node_(self, n):
        k = n["k"]
        if k == "raw": return ("{{{{" + self.head(n["expr"]) + "}}}}").encode() + n["text"] + ("{{{{/" + self.headname(n["expr"]) + "}}}}").encode()
        if n.get("dec"):
            e = self.head(n["expr"]) + self.bps(n.get("bp"))
            if k == "mu": return self.tag("*", e, n.get("sl"), n.get("sr")).encode()
            return self.tag("#*", e, n.get("sl"), n.get("sr")).encode() + self.nodes(n["body"]) + self.tag("/", self.headname(n["expr"]), n.get("csl"), n.get("csr")).encode()
        if k == "part":
            nm = n["name"] if type(n["name"]) is str else self.lit(n["name"]) if isinstance(n["name"], Num) else self.expr(n["name"])
            ps = [n["ctx"]] if n.get("ctx") is not None else []
            return self.tag(">", " " + nm + self.args(ps + (n.get("more") or []), n.get("hash") or []), n.get("sl"), n.get("sr")).encode()
        if k == "block":
            s = b""
            for i in range(len(n.get("clauses") or []) - 1, -1, -1): # the rest of a chain is in the first block of it
                c = n["clauses"][i]
                if c.get("expr") is None: s = self.tag("^" if c.get("caret") else "else", "", c.get("sl"), c.get("sr")).encode() + self.nodes(c["body"]) + s
                else: s = self.mark(c, self.tag("else ", self.head(c["expr"]) + self.bps(c.get("bp")), c.get("sl"), c.get("sr")).encode() + self.nodes(c["body"]) + s)
            return (self.tag("^" if n.get("inv") else "#", self.head(n["expr"]) + self.bps(n.get("bp")), n.get("sl"), n.get("sr")).encode() + self.nodes(n["body"]) + s
                    + self.tag("/", self.headname(n["expr"]), n.get("csl"), n.get("csr")).encode())
        return tgen.Writer.node(self, n)


def q(v):
    """an operand"""
    if v is None: return b"[NULL]"
    if v is True or v is False: return b"[BOOLEAN:%d]" % v
    if isinstance(v, int): return b"[LONG:%d]" % v
    if isinstance(v, list): return b"[ARRAY:" + b",".join(model.by(x) for x in v) + b"]"
    return b"[STRING:" + model.by(v).replace(b"\r", b"\\r").replace(b"\n", b"\\n").replace(b"\t", b"\\t") + b"]"


class Prog:
    def __init__(self): self.ops, self.kids, self.decs, self.locs = [], [], [], []

    def where(self):
        """the places of the instructions, in the order of lines()"""
        out = list(self.locs) + [None]
        for p in self.decs: out += [None] + p.where()
        for p in self.kids: out += p.where()
        return out

    def lines(self, depth=0):
        ind = b"  " * depth
        out = [ind + o for o in self.ops] + [ind + b"-----"]
        for p in self.decs: out.append(ind + b"  DECORATOR"); out += p.lines(depth + 1)
        for p in self.kids: out += p.lines(depth + 1)
        return out


SCOPED = re.compile(r"\.|.*?this(?![a-zA-Z0-9_])", re.S)


class At:
    def __init__(self, c, what): self.c, self.what = c, what
    def __enter__(self): self.c.at.append(self.what if isinstance(self.what, tuple) and not isinstance(self.what, E) else id(self.what) if self.what is not None else None)
    def __exit__(self, *a): self.c.at.pop()


class Compiler:
    def __init__(self, w, flags, known):
        self.w, self.f, self.known = w, flags, known
        self.bps = []
        self.p = Prog()
        self.at = []

    def on(self, what):
        """what follows is at the place of this"""
        return At(self, what)

    # ---- helpers
    def op(self, name, *ops):
        self.p.ops.append(name.encode() + b"".join(q(o) for o in ops))
        self.p.locs.append(self.at[-1])

    def value(self, v):
        """a literal as text"""
        if v is True or v is False: return "true" if v else "false"
        if v is None: return "null"
        if v is Undef: return "undefined"
        return str(v)

    def kind(self, e):
        if e[0] == "path": return "PathExpression"
        if e[0] == "call": return "SubExpression"
        v = e[1]
        if v is True or v is False: return "BooleanLiteral"
        if v is None: return "NULL"
        if v is Undef: return "UNDEFINED"
        return "NumberLiteral" if isinstance(v, (int, Num)) else "StringLiteral"

    def strmode(self, e): return self.w.text(e, True) if e[0] == "path" else "" if e[0] == "call" else self.value(e[1])

    def toid(self, e):
        """a literal at the head of a tag is a name"""
        return ("name", self.value(e[1]), e) if e[0] == "lit" else e

    def parts(self, e): return [e[1]] if e[0] == "name" else e[2]
    def ups(self, e): return 0 if e[0] == "name" else e[1]
    def isdata(self, e): return e[0] == "path" and e[3]
    def orig(self, e): return e[1] if e[0] == "name" else self.w.text(e, True)
    def scoped(self, e):
        s = self.orig(e)
        if not s.startswith(".") and s.count("this") > 1: raise Unjudged # which of them counts
        return bool(SCOPED.match(s))
    def simple(self, e): return len(self.parts(e)) == 1 and not self.scoped(e) and not self.ups(e)

    def bpindex(self, name):
        for i, b in enumerate(reversed(self.bps)):
            if name in b: return [str(i), str(b.index(name))]
        return None

    def isknown(self, e):
        p = self.parts(e)
        return bool(p) and (p[0] in BUILTINS or p[0] in self.known)

    # ---- expressions
    def lookup(self, e, strict=False, falsy=False):
        with self.on(e if e[0] == "path" else e[2]): self.lookup_(e, strict, falsy)

    def lookup_(self, e, strict, falsy):
        self.op("getContext", self.ups(e))
        ps = self.parts(e)
        b = self.bpindex(ps[0]) if ps and not self.ups(e) and not self.isdata(e) and not self.scoped(e) else None
        if b: self.op("lookupBlockParam", b, list(ps))
        elif not ps: self.op("pushContext")
        elif self.isdata(e): self.op("lookupData", self.ups(e), list(ps), True if strict else None)
        else: self.op("lookupOnContext", list(ps), True if falsy else None, True if strict else None, self.scoped(e))

    def number(self, s):
        x = str(s)
        if "." in x:
            a, b = x.split(".")
            if b.strip("0") or abs(int(a)) > 1 << 53: return x
            return int(a)
        v = int(x)
        return v if -(1 << 63) <= v < (1 << 63) else x

    def lit(self, v):
        if v is True or v is False: self.op("pushLiteral", v)
        elif v is None: self.op("pushLiteral", "null")
        elif v is Undef: self.op("pushLiteral", "undefined")
        elif isinstance(v, (int, Num)): self.op("pushLiteral", self.number(v))
        else: self.op("pushString", v)

    def accept(self, e):
        with self.on(e if e[0] != "implicit" else None): self.accept_(e)

    def accept_(self, e):
        if e[0] == "lit": self.lit(e[1])
        elif e[0] == "path": self.lookup(e)
        elif e[0] == "implicit": self.op("getContext", 0); self.op("pushContext")
        else: self.sexpr(e, sub=True)

    def param(self, e):
        if self.f & STRINGP:
            self.op("getContext", e[1] if e[0] == "path" else 0)
            if e[0] == "implicit": self.op("pushStringParam", "", "PathExpression")
            elif e[0] == "lit" and e[1] in (True, False) and isinstance(e[1], bool): self.op("pushStringParam", e[1], self.kind(e))
            else: self.op("pushStringParam", re.sub(r"\A(\.?\./)*", "", self.strmode(e)).replace("/", "."), self.kind(e))
            if e[0] == "call": self.accept(e)
            return
        if self.f & TRACK:
            b = None
            if e[0] == "path" and e[2] and not self.scoped(e) and not e[1]: b = self.bpindex(e[2][0])
            if b: self.op("pushId", "BlockParam", b, ".".join(e[2][1:]))
            elif e[0] == "implicit": self.op("pushId", "PathExpression", "", None)
            elif self.kind(e) == "BooleanLiteral": self.op("pushId", "BooleanLiteral", e[1], None)
            elif self.kind(e) == "NumberLiteral": self.op("pushId", "NumberLiteral", self.number(e[1]), None)
            else:
                s = re.sub(r"\Athis(?:\.|\Z)", "", self.strmode(e))
                s = re.sub(r"\A\./", "", s)
                self.op("pushId", self.kind(e), "" if s == "." else s, None)
        self.accept(e)

    def args(self, ps, hs, prog, inv, omit=None):
        for p in ps: self.param(p)
        self.op("pushProgram", prog); self.op("pushProgram", inv)
        if hs:
            with self.on(("hash", id(hs))):
                self.op("pushHash")
                for _, x in hs: self.param(x)
                for k, _ in reversed(hs): self.op("assignToHash", k)
                self.op("popHash")
        else: self.op("emptyHash", omit)

    def sexpr(self, e, prog=None, inv=None, block=False, kind=None, sub=False):
        head = self.toid(e if e[0] != "call" else e[1])
        ps, hs = (e[2], e[3]) if e[0] == "call" else ([], [])
        kind = kind or self.classify(e, head, sub)
        if kind == "helper":
            self.args(ps, hs, prog, inv)
            nm = self.parts(head)[0] if self.parts(head) else None
            if self.isknown(head): self.op("invokeKnownHelper", len(ps), nm)
            elif self.f & KNOWNONLY: raise Refused(5, "You specified knownHelpersOnly, but used the unknown helper " + (nm if nm is not None else self.orig(head)), id(head if head[0] == "path" else head[2]))
            else:
                self.lookup(head, True, True)
                self.op("invokeHelper", len(ps), self.orig(head), self.simple(head))
        elif kind == "simple":
            self.lookup(head, True); self.op("resolvePossibleLambda")
        else:
            self.op("getContext", self.ups(head)); self.op("pushProgram", prog); self.op("pushProgram", inv)
            self.lookup(head, True)
            ops = [self.parts(head)[0] if self.parts(head) else None, prog is not None or inv is not None]
            if self.f & LAMBDAS: ops.append("?" if block else "") # the text of the block is not judged here
            self.op("invokeAmbiguous", *ops)
        return kind

    def classify(self, e, head, sub=False):
        simple = self.simple(head)
        bp = simple and bool(self.bpindex(self.parts(head)[0]))
        helper = not bp and (sub or (e[0] == "call" and (bool(e[2]) or bool(e[3]))))
        elig = not bp and (simple or helper)
        if elig and not helper:
            if self.isknown(head): helper = True
            elif self.f & KNOWNONLY: elig = False
        return "helper" if helper else "ambiguous" if elig else "simple"

    # ---- nodes
    def child(self, body, bp, flat=False):
        p, self.p = self.p, Prog()
        try:
            if flat:
                with self.on(flat): self.text(body)
            else: self.program(body, bp)
            p.kids.append(self.p)
        finally: self.p = p
        return len(p.kids) - 1

    def program(self, nodes, bp):
        self.bps.append(list(bp or ()))
        try:
            for n in nodes: self.node(n)
        finally: self.bps.pop()
        return self

    def text(self, s):
        if s: self.op("appendContent", s)

    def decorator(self, e, prog):
        p = self.p
        if self.f & ALTDEC:
            self.p = Prog(); p.decs.append(self.p)
        head = e[1] if e[0] == "call" else e
        ps, hs = (e[2], e[3]) if e[0] == "call" else ([], [])
        self.args(ps, hs, prog, None)
        self.op("registerDecorator", len(ps), self.strmode(head))
        self.p = p

    def node(self, n):
        with self.on(n): self.node_(n)

    def node_(self, n):
        k = n["k"]
        if k == "text": self.text(n["out"])
        elif k == "mu":
            if n.get("dec"): self.decorator(n["expr"], None); return
            self.sexpr(n["expr"])
            self.op("appendEscaped" if n["esc"] == 2 and not self.f & NOESC else "append")
        elif k == "raw": self.block(n["expr"], lambda: self.child(n["text"], (), ("rawtext",)), None)
        elif k == "block":
            if n.get("dec"): self.decorator(n["expr"], self.child(n["body"], n.get("bp"))); return
            self.chain(n["expr"], n["body"], n.get("bp"), list(n.get("clauses") or []), n.get("inv"))
        elif k in ("part", "pblock"): self.partial(n)

    def chain(self, e, body, bp, clauses, inv):
        main = lambda: self.child(body, bp)
        rest = None
        if clauses:
            c = clauses[0]
            if c.get("expr") is None: rest = lambda: self.child(c["body"], ())
            else: rest = lambda: self.nested(c, clauses[1:])
        if inv: self.block(e, rest, main) # the inverse has the block params then
        else: self.block(e, main, rest)

    def nested(self, c, more):
        p, self.p = self.p, Prog()
        try:
            self.bps.append([])
            with self.on(c): self.chain(c["expr"], c["body"], c.get("bp"), more, False)
            self.bps.pop()
            p.kids.append(self.p)
        finally: self.p = p
        return len(p.kids) - 1

    def block(self, e, prog, inv):
        prog = prog() if prog else None
        inv = inv() if inv else None
        head = self.toid(e if e[0] != "call" else e[1])
        kind = self.classify(e, head)
        self.sexpr(e, prog if kind != "simple" else None, inv if kind != "simple" else None, prog is not None, kind)
        if kind != "helper":
            self.op("pushProgram", prog); self.op("pushProgram", inv); self.op("emptyHash", None)
            if kind == "simple": self.op("blockValue", self.orig(head))
            else: self.op("ambiguousBlockValue")
        self.op("append")

    def partial(self, n):
        ps = ([n["ctx"]] if n.get("ctx") is not None else []) + (n.get("more") or [])
        if len(ps) > 1: raise Refused(6, "Unsupported number of partial arguments", id(n))
        nm = n["name"]
        dyn = not isinstance(nm, str)
        if dyn: self.accept(nm)
        if not ps:
            if self.f & EXPLICIT: self.op("pushLiteral", "undefined")
            else: ps = [("implicit",)]
        prog = self.child(n["body"], ()) if n["k"] == "pblock" else None
        self.args(ps, n.get("hash") or [], prog, None, True)
        ind = n.get("indent") or b"" if n["k"] == "part" else b""
        if self.f & NOINDENT and ind: self.op("appendContent", ind); ind = b""
        name = None
        if not dyn:
            name = str(nm)
            if isinstance(nm, Num):
                v = self.number(nm)
                if isinstance(v, int) and v: name = v
        self.op("invokePartial", dyn, name, ind)
        self.op("append")


# ---------------------------------------------------------------- templates
NUMS = ["0", "7", "007", "-3", "1.5", "1.0", "-0", "0.25", "123456789012", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "12345678901234567890123", "-17.50", "10.000"]
NAMES = ["this", ".", "..", "./a", "../b", "thisx", "this.a", "this", "a/b", "a.b", "/abs", "x this y", "...", ".hidden", "./", "../", "././a", "../../b/c", "this/", "tab\there", "a\nb", "[x]", "é/ü", ""]
SEGS = ["a", "b", "items", "x y", "this", "..", ".", "if", "each", "hId", "thisx", "this_x", "this-x", "this9", "thisA", "p0", "p1", "q", "0", "12", "foo-bar", "é", "lookup", "a/b", "a.b"]


def lit(r):
    x = r.random()
    if x < 0.3: return ("lit", Num(r.choice(NUMS)))
    if x < 0.4: return ("lit", r.choice([None, Undef, True, False]))
    return ("lit", r.choice(NAMES))


def path(r, sc=()):
    if sc and r.random() < 0.6: return ("path", r.choice([0] * 7 + [1]), [r.choice(sc)] + [r.choice(SEGS) for _ in range(r.choice([0, 0, 1, 2]))], r.random() < 0.06, r.random() < 0.06)
    ups = r.choice([0, 0, 0, 0, 1, 2])
    segs = [r.choice(SEGS) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
    data = bool(segs) and r.random() < 0.12
    return ("path", ups, segs, data, not ups and not data and (not segs or r.random() < 0.15))


def odd(r, e, top=False, p=0.25, sc=()):
    """the same expression with unusual parts"""
    if e is None: return None
    if e[0] == "call":
        h = e[1]
        if r.random() < p / 2: h = path(r, sc) if r.random() < 0.6 else lit(r)
        if h[0] == "path" and h[3]: h = e[1]
        return ("call", h, [odd(r, x, p=p, sc=sc) for x in e[2]], [(k, odd(r, x, p=p, sc=sc)) for k, x in e[3]])
    if r.random() < (max(p, 0.4) if sc else p):
        if top: return path(r, sc) if r.random() < 0.75 else lit(r)
        x = r.random()
        if x < 0.5: return path(r, sc)
        if x < 0.85: return lit(r)
        return ("call", ("path", 0, [r.choice(["hId", "if", "a", "x y"])], False, False), [odd(r, ("lit", 1), p=0.8, sc=sc)] if r.random() < 0.7 else [], [])
    return e


def twist(r, ns, p, sc=()):
    for n in ns:
        k = n["k"]
        if k in ("mu", "block"): n["expr"] = odd(r, n["expr"], True, p, sc)
        if k == "mu" and r.random() < p / 4: n["dec"], n["esc"] = True, 2
        if k == "block":
            if not n.get("inv") and r.random() < p / 4: n["dec"] = True; n["clauses"] = []
            for c in n.get("clauses") or []:
                if c.get("expr") is not None:
                    c["expr"] = odd(r, c["expr"], True, p, sc)
                    if r.random() < p: c["bp"] = tuple(r.sample(["a", "p0", "p1", "items", "b", "q"], r.choice([1, 2])))
                twist(r, c["body"], p, sc + tuple(c.get("bp") or ()))
            if r.random() < p: n["bp"] = tuple(r.sample(["a", "p0", "p1", "items", "hId", "if", "x", "b", "q", "thisx"], r.choice([1, 2])))
        if k in ("part", "pblock"):
            n["ctx"] = odd(r, n.get("ctx"), p=p, sc=sc); n["hash"] = [(x, odd(r, y, p=p, sc=sc)) for x, y in n.get("hash") or []]
            if k == "part" and r.random() < p / 3: n["name"] = Num(r.choice(NUMS))
            if k == "part" and n.get("ctx") is not None and r.random() < 0.01: n["more"] = [("path", 0, ["b"], False, False)]
        if k in ("block", "pblock"): twist(r, n["body"], p, sc + tuple(n.get("bp") or ()))


def c_r12(cx, r, i):
    c = Cfg(partials=PN, missing=0.05, text=r.choice(["plain", "plain", "ws"]), tilde=r.choice([0, 0.1]), p_pblock=0.1, bparams=0.6, p_partial=0.15, p_raw=0)
    t, _ = mkparts(r, c, c, PN, r.choice([1, 2, 3]), r.choice([2, 4, 7]))
    twist(r, t, r.choice([0, 0.2, 0.5]))
    for _ in range(r.choice([0, 0, 0, 1])):
        t.insert(r.randint(0, len(t)), {"k": "raw", "expr": odd(r, r.choice([("path", 0, ["hRaw"], False, False), ("call", ("path", 0, ["hRaw"], False, False), [("lit", "s"), ("path", 0, ["a", "x y"], False, False)], [("k", ("lit", 5))])]), p=0),
                                        "text": r.choice([b"raw", b" {{x}} ", b"{{#if}} {{!", b"a\nb"])})
    t = model.merge(t)
    f = 0
    for b, p in ((STRINGP, 0.25), (TRACK, 0.3), (NOESC, 0.1), (KNOWNONLY, 0.06), (NOINDENT, 0.1), (EXPLICIT, 0.12), (ALTDEC, 0.4), (LAMBDAS, 0.08), (model.NOSTAND, 0.1), (model.STRICT, 0.1), (model.ASSUME, 0.1), (model.USEDATA, 0.1)):
        if r.random() < p: f |= b
    w = Wr(r.choice([".", ".", "/"]), r.choice(["./", "./", "this.", "this/"]), r.random() < 0.3)
    known = r.choice([None, None, ["hId", "a"], ["x y", "hCat", "hBlk", "hEnc"]])
    unique(t)
    try: src, at = places(w.nodes(t))
    except UnicodeEncodeError: return
    if re.search(rb"\\", src): return
    model.whitespace(t, not f & model.NOSTAND)
    try: prog = Compiler(w, f, known or []).program(t, ()).p; want = prog.lines()
    except Refused as e: want = e
    except Unjudged: cx.count("not judged"); return
    R = cx.d.call("front", "opcodes", f, src, ",".join(BUILTINS[:-1] + tuple(known)) if known else "")
    what = "%r flags %d known %r" % (src, f, known)
    cx.ev(); cx.seen((src, f))
    if isinstance(want, Refused):
        cx.count("refused")
        if R[0] == b"ok" or int(R[1]) != want.num or model.by(want.text) not in b" ".join(R): cx.fail("accepted", "%s: %r, expected %r" % (what, R[:3], want.text))
        elif R[3] != b"%d,%d,%d,%d" % at[w.ids[want.at]] or not R[4].endswith(b" on line %d, column %d" % at[w.ids[want.at]][2:]): cx.fail("place of the error", "%s: %r, expected %r" % (what, R[2:], at[w.ids[want.at]]))
        return
    if R[0] != b"ok": cx.fail("refused", "%s: %r" % (what, R)); return
    got = R[1]
    if f & LAMBDAS: got = re.sub(rb"(?m)^( *invokeAmbiguous\[[^\n]*?\]\[BOOLEAN:1\])\[STRING:[^\n]*\]$", rb"\1[STRING:?]", got)
    if f & LAMBDAS: want = [re.sub(rb"^( *invokeAmbiguous\[.*?\]\[BOOLEAN:1\])\[STRING:[^\n]*\]$", rb"\1[STRING:?]", l) for l in want]
    exp = b"\n".join(want) + b"\n"
    if got != exp: cx.fail("instructions differ", "%s\nexpected and compiled: %r" % (what, firstdiff(exp, got))); return
    # where the instructions are from
    R = cx.d.call("front", "opcodesloc", f, src, ",".join(BUILTINS[:-1] + tuple(known)) if known else "")
    if R[0] != b"ok": cx.fail("refused", "%s: %r" % (what, R)); return
    ls = R[1].split(b"\n")
    if len(ls) != len(want) + 1: cx.count("places not judged: line ends in names"); return
    for l, k in zip(ls, prog.where()):
        if k is None or k == ("rawtext",) or (k[0] == "hash" if isinstance(k, tuple) else False) and b"[0:0-0:0]" in l: continue
        p = b" [%d:%d-%d:%d]" % at[w.ids[k]]
        if not l.endswith(p): cx.fail("place", "%s\n%r is not at%r" % (what, l, p)); return
        cx.count("places")
    if i < 12 and len(src) < 120: cx.sample("%r flags %d: %d instructions, first %r" % (src, f, got.count(b"\n"), got.split(b"\n")[:3]))
    cx.count("instructions", got.count(b"\n")); cx.count("programs", got.count(b"-----"))
    for n in (b"pushStringParam", b"pushId[STRING:BlockParam", b"pushId", b"lookupBlockParam", b"lookupData", b"registerDecorator", b"DECORATOR", b"invokeKnownHelper", b"invokeAmbiguous", b"invokeHelper", b"blockValue", b"ambiguousBlockValue", b"invokePartial"):
        cx.count(n.decode() + "]" * n.count(b"["), len(re.findall(rb"(?m)^ *" + re.escape(n), got)))


def r12(ck):
    ck.rule = "distinct = (template, compiler options) whose instructions were compared one by one with those the language definition gives"
    ck.build("asan")
    ck.cases(c_r12, ck.q(20000, 400000), tag="compile")
    ck.assumptions.append("operands and order of the instructions are those of the Handlebars 4 compiler as the opcode printer shows them; the types of null and undefined literals are the library's own names")


TABLE = {"R12": r12}
