"""Reference evaluator for templates, written from the language's rules. Works on the generator's tree (tgen.py), never on text.

Nodes (dicts, key "k"):
  text s | mu expr esc(2|3|&) sl sr | com s long sl sr | block inv expr bp body clauses close sl sr csl csr
  (clauses: list of dict(expr|None, bp, body, sl, sr)) | part name(str | expr) ctx hash sl sr | pblock name ctx hash body sl sr csl csr
  raw expr text | delim o c
Expressions: ("path", ups, segs, data, this) | ("lit", value) | ("call", head path, params, [(k, expr)])
"""
import re
from drv import Safe, Fn

COMPAT, STRINGP, TRACK, NOESC, KNOWNONLY, NOINDENT, USEDATA, EXPLICIT, NOSTAND, ALTDEC, STRICT, ASSUME, LAMBDAS = [1 << i for i in range(13)]
BUILTINS = ("blockHelperMissing", "helperMissing", "each", "if", "unless", "with", "log", "lookup", "hbsc_set_delimiters")


class HbsError(Exception):
    def __init__(self, num, msg):
        Exception.__init__(self, msg)
        self.num, self.msg = num, msg


class TooLarge(Exception):
    """the generated case expands beyond what is worth comparing"""


class Closure:
    """a partial block"""
    def __init__(self, body, tmpl, env, outer): self.body, self.tmpl, self.env, self.outer = body, tmpl, env, outer


# ---------------------------------------------------------------- whitespace control: a flat sequence of tags and texts
def flatten(nodes, out):
    for n in nodes:
        k = n["k"]
        if k == "text": out.append(("text", n))
        elif k == "mu": out.append(("tag", n, n.get("sl"), n.get("sr"), False))
        elif k in ("com", "part"): out.append(("tag", n, n.get("sl"), n.get("sr"), True))
        elif k == "delim": out.append(("tag", n, False, False, True))
        elif k == "raw":
            out.append(("tag", n, False, False, False))
        elif k in ("block", "pblock"):
            out.append(("tag", n, n.get("sl"), n.get("sr"), True, "open"))
            flatten(n["body"], out)
            for c in n.get("clauses", ()):
                out.append(("tag", c, c.get("sl"), c.get("sr"), True, "open"))
                flatten(c["body"], out)
            out.append(("tag", n, n.get("csl"), n.get("csr"), True))
    return out


WS = " \t\r\n"


def whitespace(nodes, standalone=True):
    f = flatten(nodes, [])
    for t in f:
        if t[0] == "text": t[1]["cut"] = [0, len(t[1]["s"])]
        else: t[1]["indent"] = b""
    def text(i): return f[i][1] if 0 <= i < len(f) and f[i][0] == "text" else None
    def left(n, multi):
        s, e = n["s"], n["cut"][1]
        j = len(s)
        while j > 0 and s[j - 1:j] in (WS.encode() if multi else b" \t"): j -= 1
        n["cut"][1] = min(e, j)
    def right(n, multi):
        s = n["s"]; j = 0
        if multi:
            while j < len(s) and s[j:j + 1] in WS.encode(): j += 1
        else:
            while j < len(s) and s[j:j + 1] in b" \t": j += 1
            if s[j:j + 1] == b"\r": j += 1
            if s[j:j + 1] == b"\n": j += 1
        n["cut"][0] = max(n["cut"][0], j)
    # ~ first, so that standalone partials know what is left of their indentation
    for i, t in enumerate(f):
        if t[0] != "tag": continue
        if t[2] and text(i - 1): left(text(i - 1), True); text(i - 1)["tl"] = True
        if t[3] and text(i + 1): right(text(i + 1), True)
    if standalone:
        for i, t in enumerate(f):
            if t[0] != "tag" or not t[4]: continue
            p, n = text(i - 1), text(i + 1)
            if i == 0: pw = True
            elif p is not None: pw = bool(re.search(rb"\r?\n[ \t\r\n]*?\Z", p["s"]) or (i == 1 and re.match(rb"[ \t\r\n]*\Z", p["s"])))
            else: pw = False
            if i == len(f) - 1: nw = True
            elif n is not None: nw = bool(re.match(rb"[ \t\r\n]*?\r?\n", n["s"]) or (i == len(f) - 2 and re.match(rb"[ \t\r\n]*\Z", n["s"])))
            else: nw = False
            if not (pw and nw): continue
            if n is not None: right(n, False)
            if p is not None:
                if t[1]["k"] == "part" and not p.get("tl"):
                    # what a ~ before it removed is no indentation, except for the tag that opens the body
                    opened = i > 1 and f[i - 2][0] == "tag" and len(f[i - 2]) > 5
                    t[1]["indent"] = re.search(rb"[ \t]*\Z", p["s"] if opened else p["s"][p["cut"][0]:]).group(0)
                left(p, False)
    for t in f:
        if t[0] == "text":
            n = t[1]; a, b = n["cut"]
            n["out"] = n["s"][a:b] if a < b else b""
            n.pop("tl", None)


# ---------------------------------------------------------------- values
ESC = {38: b"&amp;", 60: b"&lt;", 62: b"&gt;", 34: b"&quot;", 39: b"&#x27;", 96: b"&#x60;"}


def by(s): return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


def escape(b): return b"".join(ESC.get(c) or bytes([c]) for c in b)


def expression(v, esc):
    if v is None or isinstance(v, (dict, Closure, Fn)): return b""
    if v is True: return b"true"
    if v is False: return b"false"
    if isinstance(v, int): return b"%d" % v
    if isinstance(v, float): return b"%g" % v
    if isinstance(v, Safe): return by(v)
    if isinstance(v, (str, bytes)): return escape(by(v)) if esc else by(v)
    return b",".join(expression(x, esc) for x in v)


def tostring(v): return b"" if isinstance(v, list) else expression(v, False)


def empty(v):
    if v is None or v is False: return True
    if v is True: return False
    if isinstance(v, (int, float)): return v == 0
    if isinstance(v, (Fn, Closure)): return False
    if isinstance(v, (str, bytes)): return len(v) == 0 or by(v) == b"0"
    return len(v) == 0


def same(a, b):
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)): return a is b
    if isinstance(a, (Fn, Closure)) or isinstance(b, (Fn, Closure)): return isinstance(a, Fn) and isinstance(b, Fn) and str.__eq__(a, b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and by(a) == by(b)
    return type(a) is type(b) and a == b


MISSING = object()


def part(v, seg):
    if isinstance(v, dict): return v[seg] if seg in v else MISSING
    if isinstance(v, list):
        if re.match(r"[0-9]{1,9}\Z", seg) and int(seg) < len(v): return v[int(seg)]
        return MISSING
    return MISSING


def encw(v):
    """what the probe helpers print"""
    if v is None: return b"N"
    if v is True: return b"T"
    if v is False: return b"F"
    if isinstance(v, int): return b"I%d;" % v
    if isinstance(v, float): return b"D%.17g;" % v
    if isinstance(v, Fn): return b"L%s;" % by(v)
    if isinstance(v, Safe): return b"s%d:%s" % (len(by(v)), by(v))
    if isinstance(v, (str, bytes)): return b"S%d:%s" % (len(by(v)), by(v))
    if isinstance(v, list): return b"[" + b"".join(encw(x) for x in v) + b"]"
    if isinstance(v, dict): return b"{" + b"".join(b"S%d:%s%s" % (len(by(k)), by(k), encw(x)) for k, x in v.items()) + b"}"
    return b"?"


def S(b): return b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b


class Env:
    """block params in lexical scope"""
    __slots__ = ("names", "values", "up")
    def __init__(self, names, values, up): self.names, self.values, self.up = names, values, up


class Prog:
    def __init__(self, body, bp, env, tmpl): self.body, self.bp, self.env, self.tmpl = body, bp, env, tmpl


class Opts:
    def __init__(self, **kw): self.__dict__.update(kw)


class Machine:
    LIMIT = 512

    def __init__(self, partials=None, helpers=None, flags=0, known=(), data=None, log=False):
        self.partials, self.helpers, self.flags = partials or {}, helpers or {}, flags
        self.known = tuple(BUILTINS) + tuple(known)
        self.cs, self.data, self.pblock = [], data, None
        self.ev = []
        self.depth = 0
        self.log = log
        self.steps = 0
        self.delims = ("{{", "}}")

    # ---- entry
    def render(self, nodes, data):
        if self.flags & KNOWNONLY:      # compile-time: the whole template is checked before anything runs
            self.check_known(nodes)
        whitespace(nodes, not self.flags & NOSTAND)
        return self.run(Prog(nodes, (), None, nodes), data)

    def check_known(self, nodes, bps=()):
        return None

    # ---- programs
    def run(self, prog, ctx, data=MISSING, bp=None, main=False):
        if prog is None: return b""
        self.steps += 1
        if self.steps > 6000: raise TooLarge()
        pushed = not self.cs or not same(self.cs[-1], ctx)
        if pushed: self.cs.append(ctx)
        pd, pp = self.data, self.pblock
        if data is not MISSING: self.data = data
        env = Env(prog.bp, bp, prog.env)
        try:
            return b"".join(self.node(n, env, prog.tmpl) for n in prog.body)
        finally:
            if pushed: self.cs.pop()
            self.data, self.pblock = pd, pp

    def node(self, n, env, tmpl):
        k = n["k"]
        if k == "text": return n["out"]
        if k == "mu":
            v = self.value(n["expr"], env, top=True)
            return expression(v, n["esc"] == 2 and not self.flags & NOESC)
        if k == "com": return b""
        if k == "delim": self.delims = (n["o"], n["c"]); return b""
        if k == "block": return self.block(n, env, tmpl)
        if k == "raw": return self.rawblock(n, env, tmpl)
        if k == "part": return self.partial(n, env, tmpl, None)
        if k == "pblock": return self.partial(n, env, tmpl, n)
        raise AssertionError(k)

    # ---- expressions
    def bparam(self, env, name):
        while env is not None:
            if name in env.names:
                i = env.names.index(name)
                v = env.values
                return (v[i] if isinstance(v, list) and i < len(v) else MISSING,)
            env = env.up
        return None

    def path(self, e, env, strict=False):
        _, ups, segs, data, this = e
        if not data and not this and not ups and segs:
            r = self.bparam(env, segs[0])
            if r is not None:
                v = r[0]
                for s in segs[1:]:
                    if v is MISSING: break
                    v = part(v, s)
                return None if v is MISSING else v
        if data: return self.datapath(ups, segs, strict)
        if not segs:
            return self.up(ups)
        need = self.flags & STRICT and strict
        isstrict = self.flags & (STRICT | ASSUME)
        if self.flags & COMPAT and not this and not ups:
            v = None
            for c in reversed(self.cs):
                if isinstance(c, dict) and segs[0] in c: v = c; break
        else: v = self.up(ups)
        for i, s in enumerate(segs):
            last = i == len(segs) - 1
            if not isinstance(v, (dict, list)):
                if (self.flags & ASSUME and last) or need: self.undefined(s)
                return None
            v = part(v, s)
            if v is MISSING:
                if (isstrict and not last) or need: self.undefined(s)
                return None
        return v

    def undefined(self, s): raise HbsError(1, b'"%s" not defined in object' % by(s))

    def up(self, n):
        return self.cs[-1 - n] if n < len(self.cs) else None

    def datapath(self, ups, segs, strict):
        need = self.flags & STRICT and strict
        isstrict = self.flags & (STRICT | ASSUME)
        d = self.data
        for _ in range(ups): d = d.get("_parent") if isinstance(d, dict) else None
        if isinstance(d, dict) and segs[0] in d: v = d[segs[0]]
        elif segs[0] == "root": v = self.cs[0]
        elif segs[0] == "partial-block" and self.pblock is not None: v = self.pblock
        else:
            if self.flags & ASSUME or need: self.undefined(segs[0])
            return None
        for s in segs[1:]:
            v = part(v, s)
            if v is MISSING:
                if isstrict or need: self.undefined(segs[0])
                return None
        if v is None and need: self.undefined(segs[0])
        return v

    def value(self, e, env, top=False, progs=(None, None)):
        """the value of an expression; top: it stands alone in a tag or heads a call"""
        if e[0] == "lit": return e[1]
        if e[0] == "path":
            if not top: return self.path(e, env)
            return self.mustache(e, env)
        return self.call(e, env, progs)

    def simple_id(self, e): return len(e[2]) == 1 and not e[4] and e[1] == 0

    def known_helper(self, e): return self.simple_id(e) and e[2][0] in self.known and not e[3] or (self.simple_id(e) and e[2][0] in self.known)

    def mustache(self, e, env):
        simple = self.simple_id(e)
        if simple and self.bparam(env, e[2][0]) is not None:
            return self.resolve(self.path(e, env, True))
        if simple and e[2][0] in self.known:
            return self.invoke(self.helper(e[2][0]), e[2][0], [], {}, (None, None))
        if not simple or self.flags & KNOWNONLY:
            return self.resolve(self.path(e, env, True))
        v = self.path(e, env, True)
        return self.ambiguous(e, v, (None, None))[0]

    def ambiguous(self, e, v, progs):
        """-> value, whether a helper of that name ran"""
        name = e[2][0]
        if self.flags & LAMBDAS and isinstance(v, Fn): return self.lambda_(v, progs), True
        h = self.helper(name)
        if h is not None: return self.invoke(h, name, [], {}, progs), True
        if isinstance(v, Fn): return self.invoke(v, name, [], {}, progs), False
        r = self.invoke(self.helper("helperMissing"), name, [], {}, progs); ran = False
        return (v if r is None else r), ran

    def resolve(self, v):
        if isinstance(v, Fn):
            v = self.impl(v, None, [self.cs[-1]], {}, (None, None))
            if isinstance(v, Fn): raise TooLarge() # a callable that answers with a callable
        return v

    def helper(self, name):
        if name in self.helpers: return self.helpers[name]
        if name in BUILTINS: return "#" + name
        return None

    def call(self, e, env, progs=(None, None)):
        _, head, params, hsh = e
        simple = self.simple_id(head)
        args = [self.value(p, env) for p in params]
        vals = [(k, self.value(x, env)) for k, x in hsh]
        h = {}
        for k, v in reversed(vals): h[k] = v
        hd = dict(h) if hsh else {}
        name = head[2][-1:] and ".".join(head[2]) or ""
        if simple and self.bparam(env, head[2][0]) is not None and not params and not hsh:
            return self.resolve(self.path(head, env, True))
        if simple and head[2][0] in self.known:
            f = self.helper(head[2][0])
            if f is None: raise HbsError(1, b"Invalid known helper: %s" % by(head[2][0]))
            return self.invoke(f, head[2][0], args, hd, progs)
        if self.flags & KNOWNONLY:
            raise HbsError(5, b"You specified knownHelpersOnly, but used the unknown helper %s" % by(head[2][0]))
        v = self.path(head, env, True)
        orig = self.original(head)
        f = self.helper(head[2][0]) if simple else None
        if f is None and isinstance(v, Fn): f = v
        if f is None: f = self.helper("helperMissing")
        return self.invoke(f, orig, args, hd, progs)

    def original(self, e):
        _, ups, segs, data, this = e
        return ("@" if data else "") + "../" * ups + ("./" if this and segs else "this" if this else "") + ".".join(segs)

    # ---- helpers
    def invoke(self, f, name, args, h, progs):
        if isinstance(f, str) and f.startswith("#") and not isinstance(f, Fn):
            return getattr(self, "b_" + f[1:])(name, args, h, progs)
        return self.impl(f, name, args, h, progs)

    def ex(self, prog, ctx, data=MISSING, bp=None): return self.run(prog, ctx, data, bp)

    def describe(self, args, h, progs):
        return b"%d|%s|%s|%d%d|%s" % (len(args), b"".join(encw(a) for a in args), b"0" if h is None else encw(h),
                                      progs[0] is not None, progs[1] is not None, encw(self.cs[-1]))

    def impl(self, f, name, args, h, progs):
        f = str(f)
        if f in ("each", "if", "with"): return self.invoke("#" + f, name, args, h, progs)
        sc = self.cs[-1]
        if f in ("enc", "blk", "inv", "lamtext"):
            d = self.describe(args, h, progs)
            self.ev.append(b"%s(%s)" % (f.encode(), d))
            if f == "enc": return S(d)
        if f == "safe": return Safe(S(tostring(args[0]))) if args else Safe("")
        if f == "id": return args[0] if args else None
        if f == "null": return None
        if f == "cat": return S(b"".join(tostring(a) for a in args))
        if f == "add":
            t = sum(a for a in args if isinstance(a, int) and not isinstance(a, bool))
            return t
        if f == "scope": return S(encw(sc))
        if f == "list": return list(args)
        if f == "hash": return dict(h) if h is not None else None
        if f == "data": return S(encw(self.data))
        if f == "name": return name
        if f == "blk": return S(b"<" + self.ex(progs[0], sc) + b">")
        if f == "inv": return S(b"!" + self.ex(progs[1], sc) + b"!")
        if f == "ctx": return S(self.ex(progs[0], args[0])) if args else None
        if f == "rep":
            n = args[0] if args and isinstance(args[0], int) and not isinstance(args[0], bool) else 0
            return S(b"".join(self.ex(progs[0], sc) for _ in range(max(0, min(n, 20)))))
        if f == "bp": return S(self.ex(progs[0], sc, self.data, list(args)))
        if f == "frame":
            d = dict(self.data) if isinstance(self.data, dict) else {}
            d.update(h or {})
            return S(self.ex(progs[0], sc, d))
        if f == "throw": raise HbsError(8, b"boom:" + (tostring(args[0]) if args else b""))
        if f == "lamtext": return S(b"<" + (by(args[0]) if args and isinstance(args[0], (str, bytes)) else b"") + b">")
        if f == "lamvar": return "{{planet}}"
        if f == "lamtwice":
            a = by(args[0]) if args and isinstance(args[0], (str, bytes)) else b""
            return S(a + b"{{planet}} => |planet|" + a)
        if f == "lamplanet": return args[0].get("planet") if args and isinstance(args[0], dict) else None
        if f == "lamfalse": return False
        if f == "lamtrue": return True
        if f == "lamlist": return [1, 2, 3]
        if f == "missing": return S(b"M:%s:%d" % (by(name or ""), len(args)))
        raise AssertionError(f)

    def b_helperMissing(self, name, args, h, progs):
        if args: raise HbsError(1, b'Missing helper: "%s"' % by(name))
        return None

    def b_blockHelperMissing(self, name, args, h, progs):
        if not args: return S(self.ex(progs[1], self.cs[-1]))
        c = args[0]
        zero = isinstance(c, (int, float)) and not isinstance(c, bool) and c == 0
        if c is True: return S(self.ex(progs[0], self.cs[-1]))
        if empty(c) and not zero: return S(self.ex(progs[1], self.cs[-1]))
        if isinstance(c, list):
            f = self.helper("each")
            return self.invoke(f, name, args, h, progs)
        return S(self.ex(progs[0], c))

    def arg0(self, args, name, h, progs):
        c = args[0]
        if isinstance(c, Fn): c = self.invoke(c, name, [self.cs[-1]], h, progs)
        elif isinstance(c, Closure): c = S(self.render_partial(c, self.cs[-1], b"")) # a test of @partial-block renders it
        return c

    def b_each(self, name, args, h, progs):
        if not args: raise HbsError(1, b"Must pass iterator to #each")
        c = self.arg0(args, name, h, progs)
        out = []
        if isinstance(c, (dict, list)) and c:
            items = list(c.items()) if isinstance(c, dict) else list(enumerate(c))
            base = self.data
            for i, (k, v) in enumerate(items):
                d = dict(base) if isinstance(base, dict) else {}
                d["_parent"] = base
                d["index"], d["key"], d["first"], d["last"] = i, k, i == 0, i == len(items) - 1
                out.append(self.ex(progs[0], v, d, [v, k]))
            return S(b"".join(out))
        return S(self.ex(progs[1], self.cs[-1]))

    def b_if(self, name, args, h, progs):
        if isinstance((h or {}).get("includeZero"), Fn): raise TooLarge() # whether a callable is true is not specified
        if len(args) != 1: raise HbsError(1, b"#if requires exactly one argument")
        c = self.arg0(args, name, h, progs)
        zero = isinstance(c, (int, float)) and not isinstance(c, bool) and c == 0 and not empty((h or {}).get("includeZero"))
        return S(self.ex(progs[0] if not empty(c) or zero else progs[1], self.cs[-1]))

    def b_unless(self, name, args, h, progs):
        if len(args) != 1: raise HbsError(1, b"#unless requires exactly one argument")
        return self.invoke(self.helper("if"), name, args, h, (progs[1], progs[0]))

    def b_with(self, name, args, h, progs):
        if len(args) != 1: raise HbsError(1, b"#with requires exactly one argument")
        c = self.arg0(args, name, h, progs)
        if empty(c) and (isinstance(c, bool) or not isinstance(c, (dict, int, float))) and not (isinstance(c, (str, bytes)) and len(c)): return S(self.ex(progs[1], self.cs[-1]))
        return S(self.ex(progs[0], c, self.data, [c]))

    def b_lookup(self, name, args, h, progs):
        if len(args) < 2: raise HbsError(1, b"lookup requires two parameters")
        c, f = args[0], args[1]
        if isinstance(c, dict):
            k = S(tostring(f))
            return c.get(k)
        if isinstance(c, list):
            v = part(c, tostring(f).decode("utf-8", "surrogateescape"))
            return None if v is MISSING else v
        return None

    def b_log(self, name, args, h, progs):
        self.ev.append(b"log:%d|%s" % (len(args), b"".join(encw(a) for a in args)))
        return None

    # ---- blocks
    def block(self, n, env, tmpl):
        cl = n.get("clauses") or []
        first = Prog(n["body"], n.get("bp") or (), env, tmpl)
        # the inverse chain nests: {{else if b}} is a block of its own inside the inverse
        inv = self.chain(cl, env, tmpl)
        e = n["expr"]
        # the inverse's program is one more (nameless) scope level
        prog, inverse = (first, inv) if not n.get("inv") else (inv, first)
        return self.blockcall(e, n, env, tmpl, prog, inverse)

    def chain(self, cl, env, tmpl):
        if not cl: return None
        c = cl[0]
        if c.get("expr") is None: return Prog(c["body"], (), env, tmpl)
        inner = {"k": "block", "expr": c["expr"], "bp": c.get("bp"), "body": c["body"], "clauses": cl[1:]}
        return Prog([inner], (), env, tmpl)

    def blockcall(self, e, n, env, tmpl, prog, inverse):
        head = e if e[0] == "path" else e[1]
        params = [] if e[0] == "path" else e[2]
        hsh = [] if e[0] == "path" else e[3]
        simple = self.simple_id(head)
        if params or hsh:
            if not (simple and self.bparam(env, head[2][0]) is not None):
                return expression(self.call(("call", head, params, hsh), env, (prog, inverse)), False)
            # a block parameter with arguments: its value decides like any section
            return self.section(self.resolve(self.path(head, env, True)), prog, inverse, self.original(head))
        if simple and self.bparam(env, head[2][0]) is None:
            if head[2][0] in self.known:
                return expression(self.invoke(self.helper(head[2][0]), head[2][0], [], {}, (prog, inverse)), False)
            if not self.flags & KNOWNONLY:
                v = self.path(head, env, True)
                name = head[2][0]
                if self.flags & LAMBDAS and isinstance(v, Fn): return expression(self.lambda_(v, (prog, inverse)), False)
                hp = self.helper(name)
                if hp is not None:
                    r = self.invoke(hp, name, [], {}, (prog, inverse))
                    return expression(v if r is None else r, False)
                v, _ = self.ambiguous(head, v, (prog, inverse))
                return self.section(v, prog, inverse, None)
        return self.section(self.resolve(self.path(head, env, True)), prog, inverse, self.original(head))

    def section(self, v, prog, inverse, name):
        return expression(self.invoke(self.helper("blockHelperMissing"), name, [v], {}, (prog, inverse)), False)

    def rawblock(self, n, env, tmpl):
        body = [{"k": "text", "s": n["text"], "out": n["text"]}]
        return self.blockcall(n["expr"], n, env, tmpl, Prog(body, (), env, tmpl), None)

    # ---- mustache lambdas: the text goes to the callable, what it returns is a template
    def lambda_(self, f, progs):
        import copy, tgen
        sect = progs[0] is not None or progs[1] is not None
        if sect and progs[0] is None: return None
        body = copy.deepcopy(progs[0].body) if sect else []
        for n in body:
            if self.delims != ("{{", "}}") and n["k"] != "text": raise TooLarge() # the text is not in the syntax it is rendered with: a known finding
        text = S(tgen.source(body)) if sect else ""
        r = self.impl(f, None, [text], {}, progs)
        if empty(r): return None
        d = self.delims if sect else ("{{", "}}")
        planet = {"k": "mu", "expr": ("path", 0, ["planet"], False, False), "esc": 2}
        T = lambda s: {"k": "text", "s": s}
        if str(f) == "lamtext": t = [T(b"<")] + body + [T(b">")]
        elif str(f) == "lamvar": t = [planet] if d == ("{{", "}}") else [T(b"{{planet}}")]
        elif str(f) == "lamtwice":
            mid = [planet, T(b" => |planet|")] if d == ("{{", "}}") else [T(b"{{planet}} => "), planet] if d == ("|", "|") else [T(b"{{planet}} => |planet|")]
            t = body + mid + copy.deepcopy(body)
        else: t = [T(tostring(r))] if tostring(r) else []
        t = merge(t)
        sv = self.delims
        self.delims = d
        self.depth += 1
        if self.depth > self.LIMIT: raise HbsError(7, b"Partials and lambdas are nested too deeply")
        try:
            whitespace(t, not self.flags & NOSTAND)
            return S(self.run(Prog(t, (), None, t), self.cs[-1]))
        finally:
            self.delims = sv
            self.depth -= 1

    # ---- partials
    def partial(self, n, env, tmpl, blk):
        name = n["name"]
        dyn = not isinstance(name, str)
        if dyn: name = self.value(name, env)
        if n.get("ctx") is not None: ctx = self.value(n["ctx"], env)
        elif self.flags & EXPLICIT: ctx = None
        else: ctx = self.cs[-1]
        h = None
        if n.get("hash"):
            h = {}
            for k, x in reversed([(k, self.value(x, env)) for k, x in n["hash"]]): h[k] = x
        if dyn: name = S(by(name)) if isinstance(name, (str, bytes)) else None
        out_indent = b""
        indent = n.get("indent", b"") if blk is None else b""
        if self.flags & NOINDENT and indent: out_indent, indent = indent, b""
        saved = self.pblock
        p = self.partials.get(name, MISSING) if name is not None else MISSING
        if p is MISSING and name == "@partial-block" and self.pblock is not None: p = self.pblock
        own = None
        if blk is not None:
            own = Closure(blk["body"], tmpl, env, self.pblock)
            self.pblock = own
        try:
            if isinstance(ctx, dict) and h: ctx = dict(ctx, **{}) if False else self.merged(ctx, h)
            elif ctx is None: ctx = h if h is not None else ({} if True else None)
            if p is MISSING:
                if own is not None: p = own
                elif self.flags & COMPAT: return out_indent
                else: raise HbsError(1, b"The partial %s could not be found" % by(name if name is not None else "(NULL)"))
            out = self.render_partial(p, ctx, indent)
        finally:
            self.pblock = saved
        return out_indent + out

    def merged(self, ctx, h):
        d = dict(ctx); d.update(h); return d

    def render_partial(self, p, ctx, indent):
        if isinstance(p, Closure):
            sv = self.pblock
            self.pblock = p.outer
            try: out = self.run(Prog(p.body, (), p.env, p.tmpl), ctx)
            finally: self.pblock = sv
            return self.indented(out, indent) if not self.flags & COMPAT else out
        if isinstance(p, Fn):
            return self.indented(expression(self.impl(p, None, [ctx], {}, (None, None)), False), indent)
        if not isinstance(p, list): raise HbsError(1, b"not a string")
        self.depth += 1
        if self.depth > self.LIMIT:
            raise HbsError(7, b"Partials and lambdas are nested too deeply")
        try:
            if not p: return b""
            if self.flags & COMPAT and indent:
                p = indent_tree(p, indent)
            whitespace(p, not self.flags & NOSTAND)
            sv, self.delims = self.delims, ("{{", "}}")
            try: out = self.run(Prog(p, (), None, p), ctx)
            finally: self.delims = sv
        finally: self.depth -= 1
        return out if self.flags & COMPAT else self.indented(out, indent)

    def indented(self, out, indent):
        if not indent or not out: return out
        lines = out.split(b"\n")
        for i, l in enumerate(lines):
            if not l and i == len(lines) - 1: break
            lines[i] = indent + l
        return b"\n".join(lines)


def merge(nodes):
    out = []
    for n in nodes:
        if n["k"] == "text" and out and out[-1]["k"] == "text": out[-1] = {"k": "text", "s": out[-1]["s"] + n["s"]}
        else: out.append(n)
    return out


def indent_tree(nodes, indent):
    """every line of the source indented (mustache semantics)"""
    import copy
    nodes = copy.deepcopy(nodes)
    f = flatten(nodes, [])
    if not f: return nodes
    if f[-1][0] == "text" and f[-1][1]["s"].endswith(b"\n"): final = f[-1][1]
    else: final = None
    for t in f:
        if t[0] != "text": continue
        n = t[1]
        if n is final: n["s"] = n["s"][:-1].replace(b"\n", b"\n" + indent) + b"\n"
        else: n["s"] = n["s"].replace(b"\n", b"\n" + indent)
    if f[0][0] == "text": f[0][1]["s"] = indent + f[0][1]["s"]
    else: nodes.insert(0, {"k": "text", "s": indent})
    return nodes
