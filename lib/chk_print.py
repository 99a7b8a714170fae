"""L02: tokens, parse trees, opcodes and modules as text, and templates written back as source."""
import random, re
import drv, tgen, model
from drv import encv
from tgen import ID, RESERVED
from chk_safe import scenario, flagset, mutate, config
from chk_lang import PN, build as mkparts
from chk_module import PRINT_SKIP, firstdiff

NAMES = {}
OPERANDS = {"getContext": 1, "pushProgram": 1, "appendContent": 1, "assignToHash": 1, "blockValue": 1, "push": 1, "pushLiteral": 1, "pushString": 1, "emptyHash": 1, "pushStringParam": 2,
            "invokeKnownHelper": 2, "lookupBlockParam": 2, "registerDecorator": 2, "invokeAmbiguous": 3, "invokeHelper": 3, "invokePartial": 3, "pushId": 3, "lookupData": 3, "lookupOnContext": 4}


def esc(b, chars=b"\r\n\t\v"):
    m = {13: b"\\r", 10: b"\\n", 9: b"\\t", 11: b"\\v"}
    return b"".join(m[c] if c in chars else bytes([c]) for c in b)


# ---------------------------------------------------------------- what the tree of a template has to look like as tokens and as a parse tree
class Tok(tgen.Writer):
    """the tokens of a tree that tgen.Writer writes without random choices"""
    def __init__(self):
        tgen.Writer.__init__(self, None)
        self.out = []

    def t(self, name, text):
        text = model.by(text)
        if name == "CONTENT" and self.out and self.out[-1][0] == "CONTENT": self.out[-1] = ("CONTENT", self.out[-1][1] + text)
        else: self.out.append((name, text))

    def path_(self, e):
        _, ups, segs, data, this = e
        if data: self.t("DATA", "@")
        for i in range(ups):
            self.t("ID", "..")
            if i < ups - 1 or segs: self.t("SEP", "/")
        if not segs and not ups: self.t("ID", "this"); return
        if this and segs: self.t("ID", "."); self.t("SEP", "/")
        for i, s in enumerate(segs):
            if i: self.t("SEP", ".")
            self.t("ID", self.seg(s))

    def ex(self, e, sub=True):
        if e[0] == "lit":
            v = e[1]
            if v is True or v is False: self.t("BOOLEAN", "true" if v else "false")
            elif v is None: self.t("NULL", "null")
            elif isinstance(v, int): self.t("NUMBER", str(v))
            else: self.t("STRING", v)
        elif e[0] == "path": self.path_(e)
        else:
            if sub: self.t("OPEN_SEXPR", "(")
            self.path_(e[1]); self.ar(e[2], e[3])
            if sub: self.t("CLOSE_SEXPR", ")")

    def ar(self, ps, hs):
        for p in ps: self.ex(p)
        for k, x in hs:
            self.t("ID", k if ID.match(k) else "[" + k + "]"); self.t("EQUALS", "="); self.ex(x)

    def hd(self, e):
        if e[0] == "path": self.path_(e)
        else: self.path_(e[1]); self.ar(e[2], e[3])

    def bp_(self, bp):
        if bp:
            self.t("OPEN_BLOCK_PARAMS", "as |")
            for x in bp: self.t("ID", x)
            self.t("CLOSE_BLOCK_PARAMS", "|")

    def o_(self, name, mark, strip): self.t(name, "{{" + ("~" if strip else "") + mark)
    def c_(self, strip, name="CLOSE", pre=""): self.t(name, pre + ("~" if strip else "") + "}}")
    def all(self, ns):
        for n in ns: self.one(n)
        return self.out

    def one(self, n):
        k = n["k"]; sl, sr = n.get("sl"), n.get("sr")
        if k == "text":
            if n["s"]: self.t("CONTENT", n["s"])
        elif k == "mu":
            if n["esc"] == 3: self.o_("OPEN_UNESCAPED", "{", sl); self.ex(n["expr"], False); self.c_(sr, "CLOSE_UNESCAPED", "}")
            else: self.o_("OPEN", "" if n["esc"] == 2 else "&", sl); self.ex(n["expr"], False); self.c_(sr)
        elif k == "com": self.t("COMMENT", self.node(n))
        elif k == "raw":
            self.t("OPEN_RAW_BLOCK", "{{{{"); self.hd(n["expr"]); self.t("CLOSE_RAW_BLOCK", "}}}}")
            if n["text"]: self.t("CONTENT", n["text"])
            self.t("END_RAW_BLOCK", self.headname(n["expr"]))
        elif k in ("part", "pblock"):
            self.o_("OPEN_PARTIAL" if k == "part" else "OPEN_PARTIAL_BLOCK", ">" if k == "part" else "#>", sl)
            if isinstance(n["name"], str): self.t("ID", n["name"])
            else: self.ex(n["name"])
            if n.get("ctx") is not None: self.ex(n["ctx"])
            self.ar([], n.get("hash") or []); self.c_(sr)
            if k == "pblock":
                self.all(n["body"]); self.o_("OPEN_ENDBLOCK", "/", n.get("csl")); self.t("ID", n["name"]); self.c_(n.get("csr"))
        else:
            self.o_("OPEN_INVERSE" if n.get("inv") else "OPEN_BLOCK", "^" if n.get("inv") else "#", sl); self.hd(n["expr"]); self.bp_(n.get("bp")); self.c_(sr)
            self.all(n["body"])
            for c in n.get("clauses") or []:
                if c.get("expr") is None: self.t("INVERSE", self.tag("^" if c.get("caret") else "else", "", c.get("sl"), c.get("sr")))
                else: self.o_("OPEN_INVERSE_CHAIN", "else", c.get("sl")); self.hd(c["expr"]); self.bp_(c.get("bp")); self.c_(c.get("sr"))
                self.all(c["body"])
            self.o_("OPEN_ENDBLOCK", "/", n.get("csl")); self.path_(n["expr"] if n["expr"][0] == "path" else n["expr"][1]); self.c_(n.get("csr"))


def p_expr(e):
    if e[0] == "lit":
        v = e[1]
        if v is True or v is False: return "BOOLEAN{%s}" % str(v).lower()
        if v is None: return "NULL"
        if isinstance(v, int): return "NUMBER{%d}" % v
        return '"' + v + '"'
    if e[0] == "path":
        return ("@" if e[3] else "") + "PATH:" + ".".join(e[2])
    return p_call(e)


def p_call(e):
    if e[0] != "call": return p_expr(e) + " []"
    return p_expr(e[1]) + " [" + ", ".join(p_expr(x) for x in e[2]) + "]" + p_hash(e[3])


def p_hash(hs): return " HASH{" + ", ".join(k + "=" + p_expr(x) for k, x in hs) + "}" if hs else ""


def p_nodes(ns, out):
    for n in ns:
        k = n["k"]
        if k == "text":
            if n["out"]: out.append(b"CONTENT[ '" + n["out"] + b"' ]")
        elif k == "mu": out.append(model.by("{{ " + p_call(n["expr"]) + " }}"))
        elif k == "com": out.append(b"{{! '" + n["s"] + b"' }}")
        elif k == "raw":
            out += [b"BLOCK:", model.by(p_call(n["expr"])), b"PROGRAM:", b"CONTENT[ '" + n["text"] + b"' ]"]
        elif k in ("part", "pblock"):
            nm = n["name"] if isinstance(n["name"], str) else p_call(n["name"])
            c = n.get("ctx")
            if k == "part": out.append(model.by("{{> PARTIAL:" + nm + (" " + (p_expr(c) if c[0] != "call" else p_call(c)) if c is not None else "") + p_hash(n.get("hash")) + " }}"))
            else:
                out.append(model.by("{{> PARTIAL BLOCK:" + nm + (" PATH:" + (p_expr(c) if c[0] != "call" else p_call(c)) if c is not None else "") + p_hash(n.get("hash")) + " PROGRAM:"))
                p_nodes(n["body"], out); out.append(b"}}")
        else:
            p_block(n, list(n.get("clauses") or []), n.get("inv"), out)


def p_block(n, clauses, inv, out):
    out += [b"BLOCK:", model.by(p_call(n["expr"]))]
    def prog():
        if n.get("bp"): out.append(model.by("BLOCK PARAMS: [ " + " ".join(n["bp"]) + " ]"))
        p_nodes(n["body"], out)
    def rest():
        c = clauses[0]
        if c.get("expr") is None: p_nodes(c["body"], out)
        else: p_block(c, clauses[1:], False, out)
    if inv:
        if clauses: out.append(b"PROGRAM:"); rest()
        out.append(b"{{^}}"); prog()
    else:
        out.append(b"PROGRAM:"); prog()
        if clauses: out.append(b"{{^}}"); rest()


def norm_ast(b, partials):
    ls = [l.strip() for l in b.split(b"\n")]
    ls = [l for l in ls if l and l != b"CONTENT[ '' ]"]
    b = b"\n".join(ls)
    if partials: # how the parts of partials are marked depends on where they are
        b = re.sub(rb"PATH:|NUMBER\{(-?[0-9.]+)\}|\"", lambda m: m.group(1) or b"", b)
        b = b"\n".join(l.strip() for l in b.split(b"\n"))
    return b


def has(ns, kinds):
    return any(n["k"] in kinds or has(n.get("body") or [], kinds) or any(has(c["body"], kinds) for c in n.get("clauses") or []) for n in ns)


def tree(r):
    c = config(r)
    t, parts = mkparts(r, c, c, PN, r.choice([1, 2, 3]), r.choice([2, 4, 7]))
    for _ in range(r.choice([0, 0, 1])):
        t.insert(r.randint(0, len(t)), {"k": "raw", "expr": r.choice([("path", 0, ["hRaw"], False, False), ("call", ("path", 0, ["hRaw"], False, False), [("lit", "s"), ("path", 0, ["a", "x y"], False, False)], [("k", ("lit", 5))])]),
                                        "text": r.choice([b"raw", b"", b" {{x}} ", b"{{{{other}}}} y{{{{/other}}}}", b"{{#if}} {{!", b"\\{{ \n  z"])})
    return model.merge(t)


def tokens_of(raw):
    out = []
    for i in range(0, len(raw), 2):
        n, x = raw[i].decode(), raw[i + 1]
        if n == "CONTENT" and out and out[-1][0] == "CONTENT": out[-1] = (n, out[-1][1] + x)
        else: out.append((n, x))
    return out


def other(cx):
    if not hasattr(cx, "d2"):
        cx.d2 = drv.Drv("asan", timeout=cx.d.timeout, env={"ASAN_OPTIONS": drv.ASAN_OPTIONS % 0 + ":max_malloc_fill_size=16777216:malloc_fill_byte=%d" % 0x5A})
    return cx.d2


def forms(d, f, src):
    out = {}
    for w in ("lex", "ast", "astsrc", "opcodes", "opcodesloc", "module"):
        R = d.call("front", w, f, src)
        x = R[1] if R[0] == b"ok" else R
        if w == "module" and R[0] == b"ok": x = b"\n".join(l for l in x.split(b"\n") if not l.startswith(PRINT_SKIP))
        out[w] = x
    return out


def shown(cx, r, i):
    """every element, in order"""
    d = cx.d
    t = tree(r)
    if r.random() < 0.1: t.append({"k": "mu", "expr": ("call", ("path", 0, ["hId"], False, False), [("lit", r.choice(["n\0ul", "\0", "a\vb\rc", "\x7f\\d"]))], []), "esc": 2})
    src = tgen.source(t)
    f = r.choice([0, 0, 0, model.NOSTAND, model.TRACK, model.STRINGP, model.USEDATA, model.COMPAT, model.ASSUME])
    model.whitespace(t, not f & model.NOSTAND)
    what = "%r flags %d" % (src, f)
    cx.ev(); cx.seen(src)
    F = forms(d, f, src)
    # tokens
    want = Tok().all(t)
    R = d.call("lex", src)
    got = tokens_of(R[1:]) if R[0] == b"ok" else R
    if got != want: cx.fail("tokens", "%s: %r" % (what, diff(want, got))); return
    cx.count("tokens", len(got))
    flat = b"".join(model.by(n) + b" [" + esc(x) + b"]\n" for n, x in untok(R[1:]))
    if F["lex"] != flat: cx.fail("token print", "%s: %r" % (what, firstdiff(flat, F["lex"]))); return
    # parse tree
    if not isinstance(F["ast"], bytes): cx.fail("tree refused", "%s: %r" % (what, F["ast"])); return
    out = []; p_nodes(t, out)
    parts = has(t, ("part", "pblock"))
    a, b = norm_ast(b"\n".join(out), parts), norm_ast(F["ast"], parts)
    if a != b: cx.fail("parse tree print", "%s: expected and printed %r" % (what, firstdiff(a, b))); return
    cx.count("parse tree lines", len(out))
    opcodes(cx, d, f, src, F, what)
    # compiling reads the tree and leaves it as it was
    f2 = 0
    for b in (model.COMPAT, model.STRINGP, model.TRACK, 16, 32, 128, model.STRICT, model.ASSUME):
        if r.random() < 0.3: f2 |= b
    R = d.call("front_again", f, src, f2)
    if R[0] != b"ok" or R[1:4] != R[4:7] or R[1:3] != [F["ast"], F["astsrc"]]: cx.fail("compiling changes the parse tree", "%s then %d: %r" % (what, f2, R if R[0] != b"ok" else [(firstdiff(a, b)) for a, b in zip(R[1:4], R[4:7])]))
    elif R[3] != F["opcodes"] and R[3] != b"error": cx.fail("opcodes of the same template differ", "%s: %r" % (what, firstdiff(F["opcodes"], R[3])))
    cx.count("trees compiled again")
    # only the template and the options
    F2 = forms(other(cx), f, src)
    for w in F:
        if F[w] != F2[w]: cx.fail("print depends on memory", "%s %s: %r" % (what, w, firstdiff(F[w], F2[w]) if isinstance(F[w], bytes) and isinstance(F2[w], bytes) else (F[w], F2[w])))
    cx.count("texts compared between processes", len(F))


def untok(raw): return [(raw[i].decode(), raw[i + 1]) for i in range(0, len(raw), 2)]


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i, x, y
    return len(a), len(b), (a + b)[min(len(a), len(b)):][:1]


def operand(p, it):
    k = next(it)
    if k == b"n": return b"[NULL]"
    if k == b"b": return b"[BOOLEAN:%s]" % next(it)
    if k == b"l": return b"[LONG:%s]" % next(it)
    if k == b"s": return b"[STRING:" + esc(next(it), b"\r\n\t") + b"]"
    n = int(next(it))
    return b"[ARRAY:" + b",".join(next(it) for _ in range(n)) + b"]"


def opcodes(cx, d, f, src, F, what):
    if not isinstance(F["opcodes"], bytes): cx.count("not compiled"); return
    names = {v: k for k, v in opnumbers().items()}
    d.call("ctx_new", 0)
    try:
        R = d.call("compile", 0, 0, f, src)
        if R[0] != b"ok": cx.fail("compiled once and not again", what + " %r" % R); return
        M = d.call("module", 0, "print")[1]
        inf = d.call("module", 0, "info")
        X = d.call("module", 0, "ops")
    finally:
        d.call("ctx_free", 0)
    it = iter(X[1:])
    progs, cur = [], None
    nlines = src.count(b"\n") + 1
    for k in it:
        if k == b"program":
            cur = (int(next(it)), int(next(it)), int(next(it)), [], []); progs.append(cur)
        else:
            ty = int(next(it)); loc = [int(next(it)) for _ in range(4)]
            nm = names[ty]; ops = [operand(None, it) for _ in range(4)]
            if any(x != b"[NULL]" for x in ops[OPERANDS.get(nm, 0):]): cx.fail("operand not printed", "%s: %s %r" % (what, nm, ops))
            n = OPERANDS.get(nm, 0)
            if nm == "invokeAmbiguous" and ops[2] == b"[NULL]": n = 2
            cur[3].append(nm.encode() + b"".join(ops[:n])); cur[4].append(loc)
    # the module's print is what is in the module
    want = b"PROGRAMS: %d\nOPCODES: %d\n\n" % (len(progs), sum(p[1] for p in progs))
    want += b"".join(b"PROGRAM: %d\nOPCODE_COUNT: %d\nOPCODE_OFFSET: %d\n\n" % p[:3] for p in progs)
    want += b"\n".join(b"PROGRAM: %d\n" % p[0] + b"".join(b"OP[%03d,%03d]: %s\n" % (i, p[2] + i, o) for i, o in enumerate(p[3])) for p in progs)
    got = M[M.index(b"PROGRAMS: "):]
    if got != want: cx.fail("module print", "%s: %r" % (what, firstdiff(want, got))); return
    head = dict(l.split(b": ", 1) for l in M[:M.index(b"PROGRAMS: ")].split(b"\n") if b": " in l)
    for key, k in ((b"SIZE", 1), (b"VERSION", 2), (b"FLAGS", 3)):
        if head[key] != inf[k]: cx.fail("module print", "%s: %r %r" % (what, key, head[key]))
    cx.count("opcodes", sum(p[1] for p in progs))
    # the program's print has the same opcodes, nested as they use each other
    pos = [0]
    lines = F["opcodes"].split(b"\n"); locs = F["opcodesloc"].split(b"\n")
    if lines.pop() != b"": cx.fail("opcode print", what + ": no line end"); return
    def block(depth):
        out = []
        while True:
            l = lines[pos[0]]; lo = locs[pos[0]]; pos[0] += 1
            ind = b"  " * depth
            if not l.startswith(ind) or l[len(ind):len(ind) + 1] == b" ": raise ValueError("indentation of %r" % l)
            l = l[len(ind):]
            if l == b"-----": break
            out.append((l, lo[len(ind):]))
        kids = []
        while pos[0] < len(lines) and lines[pos[0]].startswith(b"  " * (depth + 1)): kids.append(block(depth + 1))
        return out, kids
    try: root = block(0)
    except (ValueError, IndexError) as e: cx.fail("opcode print", "%s: %s" % (what, e)); return
    if pos[0] != len(lines): cx.fail("opcode print", "%s: trailing %r" % (what, lines[pos[0]])); return
    by_guid = {p[0]: p for p in progs}
    used = set()
    def cmp_(b, g):
        p = by_guid[g]; used.add(g)
        m = {}
        ops = p[3][:-1]
        if p[3][-1:] != [b"return"] or len(b[0]) != len(ops): return "program %d has %d opcodes, printed %d" % (g, len(ops), len(b[0]))
        for (x, lo), y, loc in zip(b[0], ops, p[4]):
            mx, my = re.match(rb"pushProgram\[LONG:(\d+)\]\Z", x), re.match(rb"pushProgram\[LONG:(\d+)\]\Z", y)
            if mx and my:
                if m.setdefault(int(mx.group(1)), int(my.group(1))) != int(my.group(1)): return "program numbers %r %r" % (x, y)
            elif x != y: return "%r in the program, %r in the module" % (x, y)
            if lo != x + b" [%d:%d-%d:%d]" % tuple(loc): return "location %r, in the module %r" % (lo, loc)
            if not any(loc): cx.count("opcodes without location")
            elif not (1 <= loc[0] <= loc[2] <= nlines and (loc[0] < loc[2] or loc[1] <= loc[3])): return "location %r is not in the template" % (loc,)
        for ci, cg in m.items():
            if ci >= len(b[1]): return "no program %d printed" % ci
            e = cmp_(b[1][ci], cg)
            if e: return e
        return None
    e = cmp_(root, 0)
    if e: cx.fail("opcode print", "%s: %s" % (what, e)); return
    cx.count("programs", len(used))


def opnumbers():
    """the numbers of the opcodes are those of the header"""
    global NAMES
    if not NAMES:
        import build
        src = open(build.REPO + "/src/handlebars_opcodes.h").read()
        for n, v in re.findall(r"handlebars_opcode_type_(\w+)\s*=\s*(-?\d+)", src):
            parts = n.split("_")
            NAMES[parts[0] + "".join(x.capitalize() for x in parts[1:])] = int(v)
    return NAMES


def skip(src):
    """what cannot be written: a backslash and {{ as text, strings that end with a backslash"""
    return b"\\" in src or re.search(rb"\{\{~?=", src)


def rewritten(cx, r, i):
    """source written from the parse tree means the same"""
    d = cx.d
    src, ps, data, h = scenario(r, r.choice([1, 2, 3]), r.choice([1, 3, 6]))
    mut = r.random() < 0.4
    if mut: src = mutate(r, src, tgen.source(tree(r), r), r.choice([1, 1, 2, 4]))
    if r.random() < 0.3 and not skip(src): # text that ends with backslashes
        at = [m.start() for m in re.finditer(rb"(?<!\{)\{\{(?!\{|=|/hRaw)", src)]
        if at and b"{{{{" not in src:
            for a in sorted(r.sample(at, min(len(at), r.choice([1, 2]))), reverse=True): src = src[:a] + b"\\" * r.choice([2, 2, 3, 4]) + src[a:]
            bs = True
        else: bs = False
    else: bs = False
    f = r.choice([0, 0, 0, 0, model.NOSTAND, model.NOINDENT, model.USEDATA | model.EXPLICIT, model.TRACK, model.STRINGP])
    R = d.call("front", "astsrc", f, src)
    cx.ev()
    if R[0] != b"ok": cx.count("refused"); return
    if not bs and skip(src): cx.count("skipped: backslashes or delimiters"); return
    s2 = R[1]
    what = "%r flags %d written as %r" % (src, f, s2)
    cx.seen(src); cx.count("templates written back"); cx.count("of them mutated", int(mut)); cx.count("with backslashes before tags", int(bs))
    R = d.call("front", "astsrc", f, s2)
    if R[0] != b"ok": cx.fail("source is refused", "%s: %r" % (what, R)); return
    if R[1] != s2: cx.fail("source changes again", "%s and then %r" % (what, R[1])); return
    for w in ("ast", "opcodes"):
        a, b = d.call("front", w, f, src), d.call("front", w, f, s2)
        if a[:2] != b[:2] and (a[0] == b"ok" or b[0] == b"ok" or a[1] != b[1]):
            cx.fail("source means something else", "%s: %s %r" % (what, w, firstdiff(a[1], b[1]))); return
    hh = ",".join("%s:%s" % kv for kv in h.items())
    q = ["d", encv(data), "df", "n", "p", encv(ps), "pf", "n", "h", hh, "f", f]
    a, b = d.call("render", "t", src, *q), d.call("render", "t", s2, *q)
    if a[:2] != b[:2]: cx.fail("source renders differently", "%s: %r and %r" % (what, a[:3], b[:3])); return
    cx.count("rendered alike")


def l02(ck):
    ck.rule = "distinct = template sources whose prints were compared with the expected text, or that were written back, parsed again and rendered"
    ck.build("asan")
    ck.cases(shown, ck.q(1500, 40000), tag="shown")
    ck.cases(rewritten, ck.q(3500, 90000), tag="back")
    ck.assumptions += ["how the parse tree print marks paths, strings and numbers inside of partials (with or without PATH:, quotes) is not specified and not compared, nor is indentation of the parse tree",
                       "only default delimiters; a backslash directly before text with two braces, and strings ending with a backslash, cannot be written in the language",
                       "addresses, the checksum and the time in the print of a module are not the template's"]


TABLE = {"L02": l02}
