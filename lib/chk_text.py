"""R09: literal text and literals. R10: malformed templates. Expected results follow from the construction."""
import copy
import model, tgen
from model import NOSTAND
from tgen import Cfg, Gen
from chk_lang import run, build, std, PN, big, drvdec

X = {"x": "X<", "one": [1], "nested": {"a": {"b c": "deep"}}}


def raw(r, n=None, without=b""):
    """bytes: anything but NUL"""
    mode = r.random()
    n = n if n is not None else r.choice([0, 1, 1, 2, 3, 5, 8, 20, 100, 600])
    if mode < 0.4: s = bytes(r.choice(b" \n\r\t{}\\\"'<>&~#/^!=|.[]()-_aZ09$@%*+,:;?`") for _ in range(n))
    elif mode < 0.7: s = bytes(r.randint(1, 255) for _ in range(n))
    else: s = "".join(r.choice(["a", " text ", "\n", "é", "\u20ac", "\U0001f600", "{", "}", "}}", "\\", "\\n", "<b>", "\t", "--", "-", "~", "x.y", "\x01", "\x7f", "\u2028", "\ufeff", "\r\n", "\r"]) for _ in range(n)).encode()
    for c in without: s = s.replace(bytes([c]), b"")
    return s


def literal(r):
    s = raw(r)
    while b"{{" in s: s = s.replace(b"{{", b"{")
    return s


def piece(r, depth=0):
    """-> (source, output, helper calls)"""
    k = r.random()
    if k < 0.22: s = literal(r); return s, s, b""
    if k < 0.34:
        t = raw(r, without=b"{")
        while t.endswith(b"\\"): t = t[:-1]
        return b"\\{{" + t, b"{{" + t, b""
    if k < 0.42:
        n = r.choice([1, 1, 2, 3, 7])
        tag, out = r.choice([(b"{{x}}", b"X&lt;"), (b"{{{x}}}", b"X<"), (b"{{&x}}", b"X<"), (b"{{! c }}", b""), (b"{{#if x}}y{{/if}}", b"y")])
        if tag == b"{{! c }}": return b"." + b"\\" * (n + 1) + tag + b".", b"." + b"\\" * n + b".", b""
        return b"." + b"\\" * (n + 1) + tag, b"." + b"\\" * n + out, b""
    if k < 0.52: # raw block
        body = b""
        for _ in range(r.randint(0, 4)):
            y = r.random()
            if y < 0.6: b = raw(r)
            elif y < 0.8: b = r.choice([b"{{x}}", b"{{{x}}}", b"{{#if x}}", b"{{/if}}", b"\\{{x}}", b"{{!-- c --}}", b"{{else}}", b"{{", b"}}", b"{{~"])
            else: b = b"{{{{in}}}}" + raw(r, without=b"{") + b"{{{{/in}}}}"; body = body.rstrip(b"{"); body += b + b"."; continue
            body += b
        if b"{{{{in" not in body:
            while b"{{{{" in body: body = body.replace(b"{{{{", b"{{{")
        else:
            parts = body.split(b"{{{{in}}}}")
            body = b"{{{{in}}}}".join((lambda a, *rest: a.replace(b"{{{{", b"{{") if not rest else a)(p) if b"{{{{/in}}}}" not in p else p.split(b"{{{{/in}}}}")[0] + b"{{{{/in}}}}" + p.split(b"{{{{/in}}}}", 1)[1].replace(b"{{{{", b"{{") for p in parts)
            if body.count(b"{{{{in}}}}") != body.count(b"{{{{/in}}}}"): body = b"plain"
        while body.endswith(b"{"): body = body[:-1]
        while b"{{{{{" in body: body = body.replace(b"{{{{{", b"{{{{")
        if body.count(b"{{{{") != 2 * body.count(b"{{{{in}}}}"): body = b"plain {{x}}"
        h = r.choice([b"hRaw", b"hRaw", b"hRaw 1 \"}}}}\"", b"hRaw k=1"])
        return b"{{{{" + h + b"}}}}" + body + b"{{{{/hRaw}}}}", b"<" + body + b">", None
    if k < 0.7: # string literal
        v = raw(r)
        while v.endswith(b"\\"): v = v[:-1]
        q = r.choice([b"\"", b"'"])
        src = q + v.replace(q, b"\\" + q) + q
        form = r.random()
        if form < 0.6: return b"{{{hId " + src + b"}}}", v, b""
        if form < 0.8: return b"{{hId " + src + b"}}", model.escape(v), b""
        if form < 0.9: return b"{{{hId (hId " + src + b")}}}", v, b""
        return b"{{#with " + src + b"}}{{{.}}}{{/with}}", v, b""
    if k < 0.8: # bracket segment
        v = raw(r, r.choice([1, 2, 5, 12, 60]))
        v = v.replace(b"\\", b"").decode("utf-8", "surrogateescape")
        if v in X or v in WORDS: v += "+"
        X2[0][v] = "V<" + v
        seg = ("[" + v.replace("]", "\\]") + "]").encode("utf-8", "surrogateescape")
        w = ("V<" + v).encode("utf-8", "surrogateescape")
        form = r.choice([0, 1, 2])
        if form == 0: return b"{{{this." + seg + b"}}}", w, b""
        if form == 1: return b"{{#with this}}{{{./" + seg + b"}}}{{/with}}", w, b""
        return b"{{{hId " + seg + b"}}}", w, b""
    if k < 0.92: # comments
        s = raw(r)
        if r.random() < 0.5:
            s = s.replace(b"}}", b"}")
            while b"}}" in s: s = s.replace(b"}}", b"}")
            s = s.rstrip(b"}~")
            while s.startswith(b"--"): s = s[1:]
            c = b"{{!" + s + b"}}"
        else:
            if r.random() < 0.5: s += r.choice([b"{{x}}", b"}}", b"--", b"-", b"--}", b"--~", b"--~}", b"{{!-- ", b"--}-", b"---}}"[:3]])
            while b"--}}" in s or b"--~}}" in s: s = s.replace(b"--}}", b"}}").replace(b"--~}}", b"}}")
            while s.endswith((b"}", b"~")): s = s[:-1]
            if s.startswith((b"}}", b"~}}", b"-}}", b"-~}}")): s = b" " + s
            c = b"{{!--" + s + b"--}}"
        return b"." + c + b".", b"..", b""
    # numbers and other literals
    y = r.random()
    if y < 0.4:
        n = r.choice([0, 1, -1, r.randint(-10**6, 10**6), r.randint(-2**63, 2**63 - 1), 2**63 - 1, -2**63, 2**53 + 1, 7])
        t = ("-" if n < 0 else "") + "0" * r.choice([0, 0, 0, 1, 3]) + str(abs(n)) + r.choice(["", "", "", ".0", ".00"] if abs(n) < 2**53 else [""])
        if n == 0 and r.random() < 0.2: t = "-" + t
        return b"{{hEnc " + t.encode() + b"}}", None, b"I%d;" % n
    if y < 0.6:
        t = r.choice(["1.5", "-2.25", "0.1", "123456789.125", "9223372036854775808", "-9223372036854775809", "1" * 30, "0.000001", "3.14159265358979", "-0.5"])
        return b"{{hId " + t.encode() + b"}}", t.encode(), b""
    t, e = r.choice([(b"true", b"T"), (b"false", b"F"), (b"null", b"N"), (b"undefined", b"N"), (b"[true]", b"S6:<true>"), (b"\"true\"", b"S4:true"), (b"'null'", b"S4:null"), (b"\"12\"", b"S2:12"), (b"\"\"", b"S0:"), (b"''", b"S0:"), (b"truex", b"S7:<truex>"),
                       (b"nullx", b"S7:<nullx>"), (b"true-x", b"S8:<true-x>"), (b"undefined_", b"S12:<undefined_>"), (b"1a", b"S4:<1a>"), (b"else", b"S6:<else>"), (b"as", b"S4:<as>"), (b"elsewhere", b"S11:<elsewhere>"), (b"[1]", b"S3:<1>")])
    return b"{{hEnc " + t + b"}}", None, e


X2 = [{}]
WORDS = ["true", "truex", "nullx", "true-x", "undefined_", "1a", "else", "as", "elsewhere", "1"]


def r09_case(cx, rng, i):
    X2[0] = dict(X)
    for w in WORDS: X2[0][w] = "<" + w + ">"
    src, want, calls = b"", b"", b""
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 14])):
        s, w, e = piece(rng)
        if not s: continue
        # pieces must not grow together: a brace or a backslash before a tag, a brace after one, an escaped mustache before literal text
        glue = b""
        if src.endswith((b"{", b"\\")) or (src.endswith(b"}") and s.startswith(b"}")): glue = b"."
        if src and s.startswith(b"{") and not s.startswith(b"{{"): glue = b"."
        src += glue; want += glue
        if w is None: # a probe call: prints and logs its description
            d = b"1|%s|{}|00|" % e + model.encw(X2[0])
            calls += b"\x01" + e
            w = b"\x02" + e + b"\x03"
        elif e is None: e = b""
        src += s; want += w
    wrap = rng.random()
    # the description of the context is only known at the end
    desc = lambda e: b"1|%s|{}|00|" % e + model.encw(X2[0])
    out, j = b"", 0
    full = want
    for e in calls.split(b"\x01")[1:]:
        k = full.find(b"\x02" + e + b"\x03", j)
        out += full[j:k] + model.escape(desc(e))
        j = k + len(e) + 2
    out += full[j:]
    evs = b"".join(b"enc(" + desc(e) + b")\n" for e in calls.split(b"\x01")[1:])
    kw = {}
    if wrap < 0.5 or b"hRaw" in src: pass
    elif wrap < 0.65: src = b"{{#if 1}}." + src + b".{{/if}}"; out = b"." + out + b"."
    elif wrap < 0.8: src = b"{{#with this}}." + src + b".{{else}}no{{/with}}"; out = b"." + out + b"."
    else: kw = {"p": {"p": drvdec(b"." + src)}}; src = b".{{> p}}."; out = b".." + out + b"."
    fl = NOSTAND
    R = cx.d.render(src, X2[0], h={"hId": "id", "hEnc": "enc", "hRaw": "blk"}, f=str(fl), **kw)
    cx.ev(); cx.seen((src, out)); cx.count("bytes of template", len(src)); cx.count("literal pieces", 1)
    ev = R.ev
    if not R.ok or R.out != out: cx.fail("literal differs", "template %r partials %r\nexpected %r\n     got %r" % (src, kw, out, R))
    elif b"hRaw" not in src and ev != evs: cx.fail("literal value differs", "template %r\nexpected %r\n     got %r" % (src, evs, ev))


def r09_mix(cx, rng, i):
    """literal-heavy templates of every structure against the model"""
    c = Cfg(helpers=["id", "enc", "cat"], bhelpers=["blk", "ctx"], partials=PN[:2], missing=0, p_mu=0.3, p_comment=0.2, p_block=0.25)
    t, parts = build(rng, c, c, PN[:2], depth=2)
    def walk(ns):
        for n in ns:
            if n["k"] == "text" and rng.random() < 0.7:
                s = literal(rng).replace(b"\x0b", b"v").replace(b"\x0c", b"f") # whether ~ strips these is left open
                while s.endswith((b"{", b"\\")): s = s[:-1]
                while s.startswith(b"}"): s = s[1:]
                n["s"] = s or b"-"
            if n["k"] == "com":
                n["long"] = True
                s = raw(rng, rng.choice([0, 1, 5, 30]))
                if rng.random() < 0.3: s += rng.choice([b"{{x}} ", b"-- ", b"--} ", b"}} ", b"- - "])
                while b"--}}" in s or b"--~}}" in s: s = s.replace(b"--}}", b"-").replace(b"--~}}", b"-")
                n["s"] = b" " + s.rstrip(b"}~-") + b" "
            if n["k"] in ("block", "pblock"):
                walk(n["body"])
                for cl in n.get("clauses") or (): walk(cl["body"])
    walk(t)
    for v in parts.values(): walk(v)
    run(cx, t, tgen.rootdata(rng), parts, tgen.helper_map(c), rng.choice([0, NOSTAND]), rng=rng)


def r09_fraction(cx, rng, i):
    R = cx.d.render(b"{{hEnc 1.5}}", {}, h={"hEnc": "enc"})
    cx.ev()
    if not R.ok or not R.out.startswith(b"1|D1.5"): cx.fail("fraction literal type", "got %r" % (R,))


def r09(ck):
    ck.rule = "distinct = (template, expected output)"
    ck.build("asan")
    ck.cases(r09_case, ck.q(15000, 300000), tag="lit")
    ck.cases(r09_mix, ck.q(4500, 60000), tag="mix")
    ck.cases(r09_fraction, 1, workers=1, tag="known")
    std(ck)
    ck.assumptions.append("four braces after a backslash, a brace directly before or after a tag and an unbalanced {{{{ in a raw block are left out: what they mean is the tokenizer's choice")


# ---------------------------------------------------------------- R10
# (snippet, offset and length of the offending token; None: anywhere from the start of the snippet to the end of the template)
BAD = [("{{/x}}", 0, 3), ("{{else}}", 0, 8, "top"), ("{{^}}", 0, 5, "top"), ("{{else if x}}", 0, 6, "top"), ("{{ else }}", 0, 10, "top"), ("{{}}", 2, 2), ("{{#}}", 3, 2), ("{{>}}", 3, 2), ("{{foo bar=}}", 10, 2), ("{{foo=1}}", 5, 1),
       ("{{foo (bar}}", 10, 2), ("{{foo )}}", 6, 1), ("{{{x}}", 4, 2), ("{{x}}}", 3, 3), ("{{a//b}}", 4, 1), ("{{.a}}", 2, 1), ("{{./}}", 4, 2), ("{{../}}", 5, 2), ("{{@}}", 3, 2), ("{{&}}", 3, 2), ("{{{}}}", 3, 3),
       ("{{#a as |}}x{{/a}}", 9, 2), ("{{#a as ||}}x{{/a}}", 9, 1), ("{{#a as |b}}x{{/a}}", 10, 2), ("{{a b c=1 d}}", 11, 2), ("{{~}}", 3, 2), ("{{a~b}}", 3, 1), ("{{a,b}}", 2, 1), ("{{a;b}}", 2, 1), ("{{a |b|}}", 4, 1),
       ("{{#> a}}x{{else}}y{{/a}}", 9, 8), ("{{> (a}}", 6, 2), ("{{> a b=1 c}}", 11, 2), ("{{a (b) c=(d}}", 12, 2), ("{{()}}", 2, 1), ("{{a ()}}", 5, 1), ("{{(a)}}", 2, 1), ("{{a=b}}", 3, 1), ("{{{{a}}", 5, 2),
       ("{{a}", 3, 1), ("{{{a}}}}", 4, 4), ("{{a.[b", 4, 1, "end"), ("{{a b=\"x", 6, 1, "end"), ("{{\"a", 2, 1, "end"), ("{{'a", 2, 1, "end"), ("{{[a", 2, 1, "end"), ("{{#each a as |x y z|}}b{{/each}}", 18, 1),
       ("{{#a}}{{else}}{{else}}{{/a}}", 14, 8), ("{{#a}}{{^}}x{{else if b}}y{{/a}}", 12, 6), ("{{a.1}}", 4, 1), ("{{!", 0, 1, "end"), ("{{!--", 0, 1, "end"), ("{{!-- a }} - --", 0, 1, "end"), ("{{{{a}}}} x", None, 0, "end"), ("{{foo", None, 0, "end"),
       ("{{", None, 0, "end"), ("{{#if x}}", None, 0, "end"), ("{{#> a}}", None, 0, "end"), ("{{^x}}", None, 0, "end"), ("{{#if x}}a{{else}}b", None, 0, "end"), ("{{#a}}{{#b}}{{/b}}", None, 0, "end"),
       # found after the construct is complete: located at the construct
       ("{{#a}}b{{/c}}", 0, 13), ("{{#a.b}}{{/a}}", 0, 14), ("{{^a}}b{{/c}}", 0, 13), ("{{#> a}}x{{/b}}", 0, 15), ("{{#a}}{{#b}}{{/a}}{{/b}}", 6, 12), ("{{{{a}}}} x {{{{/b}}}}", 0, 22), ("{{a/../b}}", 2, 6), ("{{a.this}}", 2, 6), ("{{a/.}}", 2, 3),
       ("{{#if a}}{{else}}{{/with}}", 0, 26), ("{{#a b}}{{/b}}", 0, 14), ("{{#with a as |b|}}{{/each}}", 0, 27), ("{{> a b c}}", 0, 11), ("{{hId a.this.b}}", 6, 8), ("{{hId (hId a/..)}}", 11, 4), ("{{hId k=a.this}}", 8, 6)]


def position(src, off):
    """line (from 1) and column (from 0) of a byte offset"""
    nl = src.rfind(b"\n", 0, off)
    return src.count(b"\n", 0, off) + 1, off - nl - 1


def valid(rng, width=4):
    c = Cfg(helpers=["id", "cat"], bhelpers=["blk", "ctx"], partials=PN[:2], missing=0, text=rng.choice(["plain", "ws"]), tilde=0.05, depth=2)
    return Gen(rng, c)


def r10_bad(cx, rng, i):
    b = BAD[i % len(BAD)] if rng.random() < 0.6 else rng.choice(BAD)
    snip = b[0].encode()
    where = b[3] if len(b) > 3 else "top" if snip.startswith(b"{{/") else ""
    g = valid(rng)
    pre, post = g.body(2, 4), g.body(2, 4)
    spre, spost = tgen.source(pre, rng), tgen.source(post, rng)
    if where == "end": spost = b"" if rng.random() < 0.5 or snip[:3] in (b"{{[", b"{{a", b"{{'", b"{{\"") or snip.startswith(b"{{f") or snip.startswith(b"{{!") or snip == b"{{" or snip.startswith(b"{{{{") else spost
    w1, w2 = b"", b""
    if where != "top" and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            o, c = rng.choice([(b"{{#if a}}", b"{{/if}}"), (b"{{#each items as |v|}}\n", b"\n{{/each}}"), (b"{{^a}}x{{else}}", b"{{/a}}"), (b"{{#> p}}", b"{{/p}}"), (b"{{#if a}}x{{else if b}}\n", b"{{/if}}")])
            w1, w2 = w1 + o, c + w2
        if where == "end" and (spost == b"" or b[1] is None): w2 = b""
    if spre.endswith((b"{", b"\\")): spre += b" "
    if spost.startswith(b"}"): spost = b" " + spost
    nl = rng.choice([b"", b"\n", b"\n\n  ", b"\xc3\xa9\n", b"\t", b"a"])
    head = w1 + spre + nl if rng.random() < 0.5 else spre + nl + w1
    src = head + snip + spost + w2
    inpart = rng.random() < 0.15
    kw = {"p": {"bad": drvdec(src)}} if inpart else {}
    R = cx.d.render(b"a\n\n\nb{{> bad}}" if inpart else src, {"a": 1, "items": [1, 2]}, h={"hId": "id", "hCat": "cat", "hBlk": "blk", "hCtx": "ctx"}, **kw)
    cx.ev(); cx.seen((b[0], w1, R.key() if R.ok else R.msg)); cx.count("malformed templates")
    if R.ok: return cx.fail("malformed template accepted", "%r in\n%r\nrendered %r" % (b[0], src, R.out))
    if R.err not in (1, 4, 6) or not R.msg: return cx.fail("no parse error", "%r in\n%r\ngot %r" % (b[0], src, R))
    if R.err == 1 and b"Invalid path" not in R.msg and b"doesn't match" not in R.msg: return cx.fail("not a parse error", "%r in\n%r\ngot %r" % (b[0], src, R))
    errtext(cx, src, R)
    l1, c1, l2, c2 = R.loc
    lines = src.count(b"\n") + 1
    if b[1] is None:
        lo = position(src, len(head))
        good = 1 <= l1 <= lines and lo <= (l1, c1 + 2) and (l1, c1) <= (l2, c2)
        want = "at or after %r" % (lo,)
    else:
        s, e = len(head) + b[1], len(head) + b[1] + b[2] - 1
        want = position(src, s) + position(src, e)
        good = (l1, c1, l2, c2) == want
    if not good: cx.fail("error located elsewhere", "%r in\n%r\nmessage %r\nexpected location %r\n              got %r" % (b[0], src, R.msg, want, R.loc))


def errtext(cx, src, R):
    """the whole text of an error is its message and its place, in either form (the driver compares the one for JavaScript)"""
    want = (R.msg + b" on line %d, column %d" % R.loc[2:])[:255]
    if R.full != want: cx.fail("another text for the error", "template %r: %r, expected %r" % (src, R.full, want))


def tokens(src):
    """rough tokens of a template: offsets to cut at"""
    import re
    return [m.span() for m in re.finditer(rb"\{\{\{\{/?|\}\}\}\}|\{\{\{|\}\}\}|\{\{[#/^>&!~]*|~?\}\}|[A-Za-z_]+|\d+|\"[^\"]*\"|'[^']*'|[().=|@/\[\]]|\s+|.", src, re.S)]


def r10_mutant(cx, rng, i):
    """token-level mutants of valid templates: refused with a location inside the template, or accepted; always the same; and the next template renders"""
    g = valid(rng)
    src = tgen.source(g.body(2, 5), rng)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        tk = tokens(src)
        if not tk: return
        a, b = rng.choice(tk)
        k = rng.random()
        if k < 0.35: src = src[:a] + src[b:]
        elif k < 0.55: src = src[:b] + src[a:b] + src[b:]
        elif k < 0.75: c, d = rng.choice(tk); src = src[:a] + src[c:d] + src[b:]
        elif k < 0.9: src = src[:a] + rng.choice([b"{{", b"}}", b"{{#", b"{{/", b"{{else}}", b"(", b")", b"=", b"|", b"as |", b"~", b"\"", b"'", b"[", b"]", b"@", b"..", b".", b"/", b"{{!", b"--}}", b"{{{{", b"}}}}", b"{{>", b"{{^", b"\\", b"\xff", b"true"]) + src[b:]
        else: src = src[:a]
    D = {"a": 1, "items": [1, 2], "obj": {"a": 2}}
    H = {"hId": "id", "hCat": "cat", "hBlk": "blk", "hCtx": "ctx"}
    R = cx.d.render(src, D, h=H, p={"p": "P", "q1": "Q"})
    cx.ev(); cx.seen((R.ok, R.out if R.ok else R.msg, src[:40])); cx.count("mutants accepted" if R.ok else "mutants refused" if R.err == 4 else "mutants failing at run time")
    if not R.ok:
        if not R.msg: cx.fail("error without a message", "template %r got %r" % (src, R))
        errtext(cx, src, R)
        if R.err == 4:
            l1, c1, l2, c2 = R.loc
            L = src.split(b"\n")
            if not (1 <= l1 <= l2 <= len(L) and 0 <= c1 <= len(L[l1 - 1]) + 1 and 0 <= c2 <= len(L[l2 - 1]) + 1 and (l1, c1) <= (l2, c2 + 1)): cx.fail("error located outside", "template %r\ngot %r" % (src, R))
    if rng.random() < 0.1:
        R = cx.d.render(b"a{{#if a}}{{items.[1]}}{{/if}}", D, h=H)
        if not R.ok or R.out != b"a2": cx.fail("state left over", "after %r: %r" % (src, R))


NAMES = ["else1", "elsewhere", "else-x", "else_", "s", "ss", "selse", "nullx", "truex", "falsey", "undefined1", "thisx", "asx", "as", "if1", "eachx", "a1", "1a", "_", "$", "a-b", "a_b", "é", "\u65e5\u672c", "x:y", "a?", "elses", "sels", "nulls", "true1", "-x", "A", "aAs", "or", "in", "each-1", "partial-block", "log1", "\U0001f600"]


def r10_names(cx, rng, i):
    """identifiers that look like keywords are names like any other"""
    n = NAMES[i % len(NAMES)] if rng.random() < 0.5 else rng.choice(NAMES)
    m = rng.choice(NAMES)
    V, W = "v<" + n, "w"
    e = "v&lt;" + n
    sp = rng.choice(["", "", " ", "\n"])
    T = [("{{%s%s%s}}" % (sp, n, sp), e), ("{{{%s}}}" % n, V), ("{{~%s~}}" % n, e), ("{{#if %s}}y{{/if}}" % n, "y"), ("{{#%s}}y{{/%s}}" % (n, n), "y"), ("{{^%s}}y{{/%s}}" % (n, n), ""), ("{{^zz}}y{{^}}n{{/zz}}", "y"), ("{{^zz-%s}}y{{/zz-%s}}" % ("q", "q"), "y"),
         ("{{o.%s}}" % n, "deep"), ("{{o/%s}}" % n, "deep"), ("{{hId %s=1}}" % n, ""), ("{{#if zz}}n{{else if %s}}y{{/if}}" % n, "y"), ("{{#if zz}}n{{%selse%sif %s}}y{{/if}}" % (sp, sp or " ", n), "y"), ("{{#if zz}}n{{%selse%s}}y{{/if}}" % (sp, sp), "y"),
         ("{{#if zz}}n{{^%s}}y{{/if}}" % sp, "y"), ("{{#with o as |%s|}}{{%s.%s}}{{/with}}" % (n, n, n), "deep"), ("{{#each l as |%s %s_|}}{{%s}}{{%s_}}{{/each}}" % (n, n, n, n), "10"), ("{{> %s}}" % n, "P"), ("{{hId (hId %s)}}" % n, e), ("{{@%s}}" % n, "dv"),
         ("{{hId @%s}}" % n, "dv"), ("{{../%s}}" % n, ""), ("{{#with o}}{{../%s}}{{/with}}" % n, e), ("{{this.%s}}" % n, e), ("{{./%s}}" % n, e), ("{{lookup . \"%s\"}}" % n, e), ("{{#> gone}}{{%s}}{{/gone}}" % n, e), ("{{[%s]}}" % n, e), ("{{&%s}}" % n, V), ("{{& %s }}" % n, V)]
    pick = [rng.choice(T) for _ in range(rng.choice([1, 1, 2, 5]))]
    if n == "partial-block" and any("@" in a for a, _ in pick): return
    src, want = "|".join(a for a, _ in pick), "|".join(b for _, b in pick)
    data = {n: V, "o": {n: "deep"}, "l": [1], m: W} if m != n else {n: V, "o": {n: "deep"}, "l": [1]}
    if n in ("o", "l"): return
    fl = NOSTAND
    R = cx.d.render(src.encode(), data, h={"hId": "id"}, p={n: "P"}, dd={n: "dv"}, f=str(fl))
    cx.ev(); cx.seen((src,)); cx.count("keyword-like names")
    if not R.ok or R.out != want.encode(): cx.fail("well-formed template refused" if not R.ok else "name misread", "template %r\nexpected %r\n     got %r" % (src, want.encode(), R))


def r10_valid(cx, rng, i):
    """valid templates of every shape parse: compiled without being run"""
    c = Cfg(partials=PN, missing=0.05, text=rng.choice(["plain", "ws"]), p_raw=0.05, tilde=rng.choice([0, 0.1, 0.4]), p_pblock=0.1, bparams=0.6)
    t = Gen(rng, c).body(rng.choice([2, 3, 4]), rng.choice([3, 6, 12]))
    src = tgen.source(t, rng)
    R = cx.d.render(src, {}, h=tgen.helper_map(c), p={p: "x" for p in PN}, f=str(rng.choice([0, 1, 8, 2048, 4096 | 1])))
    cx.ev(); cx.seen((src,)); cx.count("valid templates")
    if not R.ok and R.err in (4, 6): cx.fail("well-formed template refused", "template %r\ngot %r" % (src, R))


def r10(ck):
    ck.rule = "distinct = kinds of malformation x surroundings x message; mutants by result"
    ck.build("asan")
    ck.cases(r10_bad, ck.q(9000, 150000), tag="bad")
    ck.cases(r10_mutant, ck.q(9000, 150000), tag="mut")
    ck.cases(r10_names, ck.q(4500, 40000), tag="name")
    ck.cases(r10_valid, ck.q(3000, 60000), tag="ok")
    std(ck)


TABLE = {"R09": r09, "R10": r10}
