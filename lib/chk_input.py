"""I01: documents in JSON, YAML and native form; I02: partials from a directory; L01: the command line."""
import json, os, random, re, shutil, subprocess, tempfile
import build, drv, tgen, model
from drv import encv
from chk_lang import PN, drvdec
from chk_safe import scenario, flagset, mutate, req, plain_data, BAD_RUN, BAD_COMPILE, BAD_SYNTAX
from chk_text import raw


# ---------------------------------------------------------------- documents
WORDS = ["", "a", "b", "items", "obj", "name", "x y", "foo-bar", "0", "1", "-1", "007", "1.5", "true", "false", "null", "~", "yes", "é", "日本", "\U0001f600", "a.b", "a/b", "this", "..", "@key", "length", "A", "[x]", "{{a}}", "# no", "- no", "k: v", "&amp;", "<b>", "'q'", "\"dq\"", "back\\slash", "tab\there", "line\nbreak", "two\nlines\n", "end\n\n", " lead", "trail ", "0x1f", "1e3", "inf", "nan", ".5", "-", "+", "!!str", "|", ">", "%", "`", "*a", "&a", "?", ":", ",", "[]", "{}", "\x7f", "\x01", "\u0085", "\u2028", "\ufeff"]


def word(r): return r.choice(WORDS) if r.random() < 0.8 else "".join(r.choice("abc :#-[]{},\"'\\\n\té\U0001f680\0") for _ in range(r.choice([1, 3, 10, 60])))


def number(r):
    x = r.random()
    if x < 0.4: return r.choice([0, 1, -1, 2, 9, 10, 100, -7, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63])
    if x < 0.6: return r.randint(-2 ** 63, 2 ** 63 - 1)
    if x < 0.8: return r.choice([0.0, -0.0, 1.0, 0.5, -1.5, 1e20, 1e21, 1e-7, 123456.789, 1e100, 5e-324, 1.7976931348623157e308, 0.1, 3.0, 100.0])
    return r.uniform(-1, 1) * 10 ** r.randint(-20, 20)


def document(r, depth=3, seen=None):
    seen = seen if seen is not None else []
    if seen and r.random() < 0.06: return r.choice(seen)
    x = r.random()
    if depth and x < 0.3: v = [document(r, depth - 1, seen) for _ in range(r.choice([0, 1, 2, 3, 3, 10]))]
    elif depth and x < 0.62: v = {k: document(r, depth - 1, seen) for k in dict.fromkeys(word(r).replace("\0", "0") for _ in range(r.choice([0, 1, 2, 4, 4, 40 if depth > 2 else 5])))}
    elif x < 0.75: v = number(r)
    elif x < 0.86: v = r.choice([True, False, None])
    else: v = word(r)
    if isinstance(v, (list, dict)) and v: seen.append(v)
    return v


def clean(v, nul=False):
    """text all formats can carry"""
    if isinstance(v, drv.Fn): return str(v)
    if isinstance(v, str):
        t = v.encode("utf-8", "surrogateescape").decode("utf-8", "replace")
        return str(t) if nul else str(t).replace("\0", "0")
    if isinstance(v, dict): return {clean(k): clean(x, nul) for k, x in v.items()}
    if isinstance(v, list): return [clean(x, nul) for x in v]
    if isinstance(v, int) and not isinstance(v, bool): return max(-2 ** 63, min(2 ** 63 - 1, v))
    return v


def ws(r): return r.choice(["", "", "", " ", "\n", "\t ", "\r\n"])


def jstr(s, r):
    out = '"'
    for c in s:
        o = ord(c); x = r.random()
        if c in '"\\' : out += "\\" + c
        elif c == "/" and x < 0.5: out += "\\/"
        elif o < 32:
            e = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o)
            out += e if e and x < 0.7 else "\\u%04x" % o
        elif x < 0.1 or o == 0x7f:
            if o > 0xffff: out += "\\u%04x\\u%04x" % (0xd800 + (o - 0x10000 >> 10), 0xdc00 + (o - 0x10000 & 1023))
            else: out += ("\\u%04x" if x < 0.05 else "\\u%04X") % o
        else: out += c
    return out + '"'


def jnum(v, r):
    s = repr(v)
    if isinstance(v, float) and "e" in s and r.random() < 0.4: s = s.replace("e", r.choice(["E", "e"]))
    elif isinstance(v, float) and "e" not in s and r.random() < 0.2: s += "0"
    return s


def jtext(v, r):
    if v is None or v is True or v is False: return {None: "null", True: "true", False: "false"}[v]
    if isinstance(v, (int, float)): return jnum(v, r)
    if isinstance(v, str): return jstr(v, r)
    if isinstance(v, list): return "[" + ws(r) + ",".join(ws(r) + jtext(x, r) + ws(r) for x in v) + "]"
    return "{" + ws(r) + ",".join(ws(r) + jstr(k, r) + ws(r) + ":" + ws(r) + jtext(x, r) + ws(r) for k, x in v.items()) + "}"


PLAIN = re.compile(r"^[A-Za-z_éß日本][A-Za-z0-9_/.é -]*$")
RESERVED = {"true", "false", "null"}


def yquote(s, r, key=False):
    """a YAML scalar that is this string"""
    printable = all(ch == "\t" or " " <= ch <= "~" or "\xa0" <= ch <= "\ud7ff" or "\ue000" <= ch <= "\ufffd" and ch != "\ufeff" or ch >= "\U00010000" for ch in s) and "\u2028" not in s and "\u2029" not in s
    x = r.random()
    if printable and x < 0.4 and PLAIN.match(s) and s not in RESERVED and not s.endswith(" ") and not s.lower().startswith(("inf", "nan")): return s
    if printable and x < 0.7 and "\t" not in s: return "'" + s.replace("'", "''") + "'"
    out = '"'
    for c in s:
        o = ord(c)
        if c in '"\\': out += "\\" + c
        elif c == "\n": out += "\\n"
        elif c == "\t": out += r.choice(["\\t", "\\x09"])
        elif o < 32 or 0x7f <= o < 0xa0: out += "\\x%02x" % o
        elif o in (0x2028, 0x2029, 0xfeff) or (o > 126 and o < 0x10000 and r.random() < 0.2): out += "\\u%04x" % o
        elif o >= 0x10000 and r.random() < 0.3: out += "\\U%08x" % o
        else: out += c
    return out + '"'


def yscalar(v, r):
    if v is None: return r.choice(["null", "~"])
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int): return repr(v)
    if isinstance(v, float):
        s = repr(v)
        return s if not ("e" in s and "." not in s and r.random() < 0.3) else s.replace("e", ".0e")
    return yquote(v, r)


def yblock(s, ind, r):
    """a literal block scalar, if the text can be one"""
    if "\n" not in s or any(not (" " <= c <= "~" or c == "\n" or c in "é日本") for c in s): return None
    body = s.rstrip("\n"); tail = len(s) - len(body)
    if not body or any(not l or l[0] == " " for l in body.split("\n")): return None
    if any(l.endswith(" ") for l in body.split("\n")): return None
    pad = " " * (ind + 2)
    return "|" + {0: "-", 1: ""}.get(tail, "+") + "\n" + "".join(pad + l + "\n" for l in body.split("\n")) + "\n" * max(0, tail - 1)


def yflow(v, r):
    if isinstance(v, list): return "[" + ", ".join(yflow(x, r) for x in v) + "]"
    if isinstance(v, dict): return "{" + ", ".join(yquote(k, r, True) + ": " + yflow(x, r) for k, x in v.items()) + "}"
    return yscalar(v, r)


def ytext(v, r, ind=0, anchors=None):
    """the text behind '-' or 'key:', including the newline"""
    anchors = anchors if anchors is not None else {}
    pre = ""
    if isinstance(v, (list, dict)) and v:
        k = id(v)
        if anchors.get(k) and r.random() < 0.7: return " *" + anchors[k] + "\n"
        if r.random() < 0.3 and k not in anchors:
            anchors[0] = anchors.get(0, 0) + 1; anchors_new = "n%d" % anchors[0]; pre = " &" + anchors_new
        else: anchors_new = None
        if r.random() < 0.2: out = pre + " " + yflow(v, r) + "\n"
        else:
            c = r.choice(["", "", " # comment"]) ; pad = " " * ind
            out = pre + c + "\n"
            if isinstance(v, list):
                for x in v: out += pad + "-" + ytext(x, r, ind + 2, anchors)
            else:
                for kk, x in v.items():
                    out += pad + yquote(kk, r, True) + ":" + ytext(x, r, ind + 2, anchors)
                    if r.random() < 0.05 and not out.endswith("\n\n") and not (isinstance(x, str) and "\n" in x): out += "\n" + pad + "# more\n"
        if anchors_new: anchors[k] = anchors_new
        return out
    if isinstance(v, list): return " []\n"
    if isinstance(v, dict): return " {}\n"
    if isinstance(v, str) and r.random() < 0.5:
        b = yblock(v, ind - 2 if ind >= 2 else 0, r)
        if b: return " " + b
    return " " + yscalar(v, r) + r.choice(["", "", " # c"]) + "\n"


def ydoc(v, r):
    if r.random() < 0.12: return json.dumps(v, ensure_ascii=False) + "\n" if all_plain(v) else yflow(v, r) + "\n"
    head = r.choice(["", "", "---", "# top\n---", "%YAML 1.1\n---"])
    t = ytext(v, r, 0)
    if not head:
        if isinstance(v, (list, dict)) and v and t.startswith("\n"): return t[1:]
        if t.startswith((" &", " *")): head = "---"
        else: return t[1:] if t.startswith(" ") and not t.startswith(" |") and not t.startswith(" #") else "---" + t
    return head + t + r.choice(["", "", "...\n"])


def all_plain(v):
    if isinstance(v, str): return all(" " <= c <= "~" for c in v)
    if isinstance(v, list): return all(map(all_plain, v))
    if isinstance(v, dict): return all(all_plain(k) and all_plain(x) for k, x in v.items())
    return not (isinstance(v, float) and repr(v) in ("inf", "nan"))


def i01_typed(cx, r, i):
    v = clean(document(r, r.choice([0, 1, 2, 3])), True)
    d = cx.d
    d.call("ctx_new", 0)
    want = None
    try:
        d.call("val", 0, 0, "n", encv(v)); want = d.call("enc", 0)[1]
        forms = [("j", jtext(v, r)), ("w", jtext(v, r)), ("J", jtext(v, r)), ("y", ydoc(v, r))]
        for k, t in forms:
            if k != "y": t = ws(r) + t + ws(r)
            t = t.encode("utf-8", "surrogatepass")
            R = d.call("val", 1, 0, k, t)
            if R[0] != b"ok": cx.fail("document refused (%s)" % ("YAML" if k == "y" else "JSON"), "%r: %r" % (t, R[1:4])); continue
            got = d.call("enc", 1)[1]
            cx.ev(); cx.count("documents " + {"j": "JSON converted", "w": "JSON lazy", "J": "JSON text", "y": "YAML"}[k]); cx.seen((k, t))
            if got != want: cx.fail("document read differently (%s)" % ("YAML" if k == "y" else "JSON"), "%s %r gave %r, expected %r" % (k, t, got, want))
    finally: d.call("ctx_free", 0)


PROBE = ("{{{hEnc this}}}|{{#each this}}{{@key}}/{{@index}}/{{@first}}/{{@last}}={{this}}/{{#if this}}T{{else}}F{{/if}}/{{#if this includeZero=true}}T{{/if}}/{{#with this}}W{{{hEnc .}}}{{else}}w{{/with}}/"
         "{{#this}}[{{.}}]{{/this}}{{^this}}N{{/this}};{{#each this}}{{@key}}{{@index}}{{../@index}}{{else}}E{{/each}}{{/each}}|{{hName this}}{{length}}{{this.length}}{{lookup this 0}}{{lookup this \"a\"}}{{items.[0]}}{{items.0}}{{[x y]}}{{obj.name}}{{obj/a}}{{[]}}{{hCat a b items}}{{#hBlk items}}x{{/hBlk}}{{{hEnc a b c}}}")


def i01_render(cx, r, i):
    x = r.random()
    if x < 0.6:
        src, ps, data, h = scenario(r, 3, 4); data = clean(plain_data(data))
        if r.random() < 0.4: data = dict(data, **{k: clean(document(r, 2)) for k in r.sample(["a", "b", "items", "obj", "x y", "n"], 2)})
        if r.random() < 0.3: src += ("{{lookup . %s}}{{lookup obj %s}}" % (json.dumps(word(r).replace("\\", "").replace("\n", "").replace('"', "")), r.choice(["\"a\0b\"", "0", "\"0\"", "-1", "\"length\"", "\"\""]))).encode()
    else:
        data = clean(document(r, 3)); src = PROBE.encode()
        h = {"hEnc": "enc", "hName": "name", "hCat": "cat", "hBlk": "blk"}; ps = {}
    f = r.choice([0, 0, 0, 1, 32, 128, flagset(r)])
    base = None
    for k in "njwJy":
        if k == "n": t = data
        elif k == "y": t = ydoc(data, r).encode("utf-8", "surrogatepass")
        else: t = jtext(data, r).encode("utf-8", "surrogatepass")
        R = drv.Result(cx.d.call("render", *req(src, ps, t, h, f, k)))
        cx.ev(); cx.count("rendered from " + {"n": "native values", "j": "JSON converted", "w": "JSON lazy", "J": "JSON text", "y": "YAML"}[k])
        if base is None: base = R; cx.seen((src, repr(data)[:500], R.key())); cx.count("rendered" if R.ok else "errors"); continue
        if R.key() != base.key():
            cx.fail("output depends on how the data is given (%s)" % k, "%r partials %r flags %d data %r as %s %r: native %r, this %r" % (src, ps, f, data, k, t, base, R)); return


BADJSON = [b"{", b"[", b"{\"a\"", b"{\"a\":", b"{\"a\":1", b"{\"a\":1,", b"[1", b"[1,", b"[1 2]", b"{\"a\" 1}", b"{a:1}", b"[}", b"{]", b"]", b"}", b"nul", b"tru", b"falsy", b"\"x", b"\"\\x\"", b"\"\\u12\"", b"-", b"[-]", b"[+1]", b"[.5]", b"", b" ", b"{} {}", b"1 2", b"[1]]", b"{}x", b"[1,,2]", b"{,}", b"{\"a\"}", b"[tru]", b"abc", b"{\"a\":b}", b":", b",", b"[\"a\" : 1]", b"{\"a\":1 \"b\":2}", b"{1:2}"]
BADYAML = [b"{", b"[", b"[1, 2", b"{a: 1", b"a: [1\nb: 2", b"\"x", b"'x", b"a: *nope", b"*x", b"a: b: c", b"- a\nb: c", b"a:\n  b: 1\n c: 2", b"\tx: 1", b"a: @x", b"a: `x`", b"a: \"\\q\"", b"? [a]\n: b", b"%YAML 9.9\n---\na", b"a: |x\n y", b"a: 1\n]", b"--- a\n--- [b", b"[a]\n}", b"", b"# only\n", b"[a]]", b"{a: 1}}", b"a: %x", b"a: 1\n---\nb: 2\n---\n[", b"--- 1\n--- 2\n--- 3\n...\n--- [b"]


def i01_bad(cx, r, i):
    x = r.random()
    kind = "jJwy"[i % 4]
    if kind == "y": t = r.choice(BADYAML) if x < 0.5 else None
    else: t = r.choice(BADJSON) if x < 0.4 else None
    if t is None:
        v = clean(document(r, 3))
        if not isinstance(v, (list, dict)) or not v: v = [v, {"k": v}]
        if kind != "y":
            t = jtext(v, r).strip().encode("utf-8", "surrogatepass")
            y = r.random()
            if y < 0.6: t = t[:r.randint(0, len(t) - 1)]
            elif y < 0.8: t = t + ws(r).encode() + r.choice([b"]", b"}", b",", b"1", b"x", b"null", b"{}", b"\"\"", t])
            else: t = r.choice([b"]", b"}", b",", b":", b"x", b"{", b"["]) + t
        else:
            t = yflow(v, r).encode("utf-8", "surrogatepass")
            if r.random() < 0.7:
                t = t[:-1]
                # what is cut off must still be open
            else: t = t + r.choice([b"]", b"}"])
    if kind == "y": t = t.replace(b"\0", b"0")
    R = cx.d.call("render", "t", b"x{{{hEnc this}}}", "d", t, "df", kind, "h", "hEnc:enc")
    cx.ev(); cx.count("malformed " + ("YAML" if kind == "y" else "JSON")); cx.seen((kind, t, R[2][:60] if R[0] == b"err" else R[1]))
    if R[0] == b"ok": cx.fail("malformed document accepted (%s)" % ("YAML" if kind == "y" else "JSON"), "%s %r: %r" % (kind, t, R[:2]))
    elif not R[2]: cx.fail("error without a message", "%r %r" % (t, R))


def i01(ck):
    ck.rule = "distinct = (format, document text) read; (template, document, result) rendered; (format, malformed text, message)"
    ck.assumptions += ["integers fit 64 bits", "names in JSON objects have no NUL and are not repeated", "documents are valid UTF-8", "nested less deeply than json-c's limit",
                       "what json-c reads beyond the standard (comments, single quotes, NaN, trailing commas) is not judged", "YAML 1.1 forms other than true, false, null, ~, decimal numbers and strings are not judged"]
    ck.build("asan", "asand")
    ck.cases(i01_typed, ck.q(6000, 120000), tag="typ")
    ck.cases(i01_typed, ck.q(1500, 20000), variant="asand", tag="typd")
    ck.cases(i01_render, ck.q(2500, 50000), tag="ren")
    ck.cases(i01_render, ck.q(600, 10000), variant="asand", tag="rend")
    ck.cases(i01_bad, ck.q(3000, 40000), tag="bad")



# ---------------------------------------------------------------- partials in files
NAMES = ["a", "b", "ab", "p1", "layout", "x-y", "x_y", "a.b", "a.hbs", "UP", "up", "0", "1", "true", "this", "with space", "é", "日本", "sub/a", "sub/deep/b", "sub/a.b", "long" * 20, "a'b", "a&b", "<b>", "~", "#a", "a]b", "a[b", "@partial", "length", "..a", "-", "a-", "index.html", "else", "constructor", "%s", "%n", "a b/c d", "\\", "*", "p\tq", "p\nq"]
ODD = ["nope", "./a", "sub/../a", "sub//a", "/a", "../up", "sub", "sub/", "", "a\0", "a\0.hbs", "a\0b", "\0", "x" * 300, "y/" * 200 + "a", "a/b", "a.hbs.hbs", ".", "..", "é\0"]
EXTS = [".hbs", ".hbs", ".hbs", "", ".handlebars", ".html", ".hbs.txt", "-x", " ", ".é"]


def tagname(r, n):
    """a partial tag's name part, and whether data carries it"""
    x = r.random()
    if re.match(r"^[A-Za-z_é][A-Za-z0-9_é/-]*$", n) and x < 0.5 and n not in ("this", "true", "false", "null", "undefined", "as", "else"): return n
    if '"' not in n and "\\" not in n and "\0" not in n and x < 0.75 : return '"%s"' % n
    if "'" not in n and "\\" not in n and "\0" not in n and x < 0.8: return "'%s'" % n
    return "(lookup @root.names %d)"


def ptext(r, names):
    x = r.random()
    if x < 0.1: return r.choice(["x", "\n", " ", "\r\n", "\n\n\n", "\t"])
    if x < 0.13: return "".join(chr(r.choice([10, 32, 65, 0x7f, 0xe9, 0x1f600])) for _ in range(r.choice([100, 2000]))) + r.choice(["", "", "x" * 4090, "word " * 1500 if len(names) == 1 else "w "])
    if x < 0.18: return r.choice(["{{#if a}}", "{{", "a\0b", "{{a}", "{{/x}}", "{{> }}"])
    o = r.choice(["", "T", "line\n"])
    for _ in range(r.randint(1, 4)): o += r.choice(["{{a}}", "{{{b}}}", "text", "\n", "  {{h}}\n", "{{#if a}}y{{else}}n{{/if}}", "{{#each items}}{{this}},{{/each}}", "<&>", "{{../a}}", "é", "{{! c }}\n", "{{@root.b}}", "{{this}}", "\\{{a}}"])
    return o


def i02_files(cx, r, i):
    top = tempfile.mkdtemp(prefix="hbsi")
    try:
        base = os.path.join(top, r.choice(["t", "d.d", "d d", "é"])); os.mkdir(base)
        ext = r.choice(EXTS)
        names = r.sample(NAMES, r.randint(1, 9))
        files = {}
        def put(rel, data):
            q = os.path.join(base, rel)
            try: os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(data)
            except (OSError, ValueError): return False
            return True
        for n in names:
            e = ext if r.random() < 0.85 else r.choice(EXTS)
            t = ptext(r, names)
            if r.random() < 0.45 and len(names) > 1:      # one file includes another: only later ones, so that it ends
                later = names[names.index(n) + 1:]
                if later:
                    m = r.choice(later); g = tagname(r, m)
                    if "%d" not in g: t += r.choice(["{{> %s}}", "\n  {{> %s}}\n", "{{> %s h=1}}"]) % g
            data = t.encode() if r.random() < 0.9 else r.choice([b"\xff\xfe", b"\xef\xbb\xbfx", t.encode("latin1", "replace")])
            put(n + e, data)
            if r.random() < 0.25: put(n + r.choice(["", ".bak", ext + "~", ".HBS", ext + ext]), b"WRONG")
        if r.random() < 0.3: put("../up" + ext, b"UP")
        if r.random() < 0.1: os.makedirs(os.path.join(base, "dir" + ext), exist_ok=True)
        if r.random() < 0.2:
            try: os.symlink(os.path.join(base, names[0] + ext), os.path.join(base, "ln" + ext))
            except OSError: pass
        pool = names + r.sample(ODD, 3) + ["dir", "ln"]
        use = []; src = ""
        for _ in range(r.randint(1, 5)):
            n = r.choice(pool if r.random() < 0.3 else names); g = tagname(r, n)
            if "%d" in g: use.append(n); g = g % (len(use) - 1)
            src += r.choice(["{{> %s}}", "{{> %s}}", "[{{> %s a=1}}]", "{{> %s obj}}", "  {{> %s}}\n", "{{#each items}}{{> %s}}{{/each}}" if len(names) > 1 else "{{> %s}}", "{{~> %s~}} ", "{{#> %s}}fallback{{/%s}}" if g[0] not in "(" else "{{> %s}}"]).replace("%s", g)
            src += r.choice(["", "\n", "|", " "])
        data = {"a": "A<&", "b": "B", "items": [1, "x", {"a": 2}], "obj": {"a": "oa", "b": 0}, "names": use}
        where = base + r.choice(["", "", "/", "/."])
        # what the file system says
        oracle = {}; odd = set()
        for n in set(pool + use + NAMES):
            f = where + "/" + n + ext
            try: c = open(os.fsencode(f), "rb").read()
            except (FileNotFoundError, NotADirectoryError, ValueError): continue
            except IsADirectoryError: odd.add(n); continue
            except OSError as e:
                if e.errno == 36: continue
                raise
            if not c: odd.add(n); continue
            oracle[n] = c
        used = set(re.findall(r"[^\s]+", src)) | set(use)
        touched = any(n in src or n in use for n in odd)
        f = r.choice([0, 0, 0, 1, 8, 32, 64, 128, 256])
        d = cx.d
        common = ["t", src.encode(), "d", encv(data), "df", "n", "f", str(f)]
        L = ["render"] + common + ["p", os.fsencode(where) + b"\0" + ext.encode(), "pf", "l"]
        want = drv.Result(d.call("render", *common, "p", encv({k: v for k, v in oracle.items()}), "pf", "n"))
        got = drv.Result(d.call(*L))
        cx.ev(); cx.count("rendered from a directory" if got.ok else "errors from a directory")
        if "" in use or "names." in src: pass
        cx.seen((src, tuple(sorted(oracle)), got.key()))
        if touched:
            cx.count("directories and empty files in the way")
            if got.ok and want.ok and got.out != want.out: cx.fail("a directory or empty file used as a partial", "%r in %r: %r" % (src, where, got))
            return
        if got.key() != want.key(): cx.fail("partial from a file differs from its contents", "%r flags %d data %r, files %r below %r ext %r: directory %r, same partials as values %r" % (src, f, data, oracle, where, ext, got, want)); return
        for extra in (["runs", str(r.choice([2, 3, 8]))], ["c", "simple", "runs", "2"], ["c", "mmap"]):
            g = drv.Result(d.call(*(L + extra)))
            cx.ev(); cx.count("repeated use")
            if g.key() != want.key(): cx.fail("repeated use of a partial from a file differs", "%r %r files %r below %r: %r, expected %r" % (src, extra, oracle, where, g, want)); return
    finally: shutil.rmtree(top, ignore_errors=True)


def i02_scenario(cx, r, i):
    src, ps, data, h = scenario(r, 3, 4)
    top = tempfile.mkdtemp(prefix="hbsi")
    try:
        ps = {k: (v if v else " ") for k, v in ps.items()}
        if ps and r.random() < 0.2: k = r.choice(list(ps)); ps[k] = drv.b(ps[k]) + b" " * r.choice([100, 1023, 4095, 4096])
        if ps and r.random() < 0.15: k = r.choice(list(ps)); ps[k] = drv.b(ps[k]) + r.choice([b"\xff", b"\0", b"{{", b"\r", b"\xe9"])
        if ps and r.random() < 0.2: del ps[r.choice(list(ps))]
        for k, v in ps.items(): open("%s/%s.p" % (top, k), "wb").write(drv.b(v))
        f = flagset(r)
        a = req(src, ps, data, h, f)
        want = drv.Result(cx.d.call("render", *a))
        b = list(a); b[b.index("p") + 1] = top.encode() + b"\0.p"; b[b.index("pf") + 1] = "l"
        for extra in ([], ["runs", "3"]):
            got = drv.Result(cx.d.call("render", *b, *extra))
            cx.ev(); cx.count("scenarios rendered" if got.ok else "scenarios in error"); cx.seen((src, f, got.key()))
            if got.key() != want.key(): cx.fail("partial from a file differs from its contents", "%r flags %d partials %r: directory %r, values %r" % (src, f, ps, got, want)); return
    finally: shutil.rmtree(top, ignore_errors=True)


def i02_map(cx, r, i):
    """the loader as a map: finds, and walks over what was found so far"""
    top = tempfile.mkdtemp(prefix="hbsi")
    try:
        ext = r.choice(["", ".hbs", ".x"])
        files = {n: r.choice(["x", "{{a}}", "\n", "y" * 100, "\xe9"]).encode() + n.encode() for n in r.sample(["a", "b", "ab", "a.hbs", "c", "d", "B", "e e", "longer-name"] + ["n%d" % k for k in range(40)], r.randint(0, 30))}
        for n, c in files.items(): open(os.path.join(top, n + ext), "wb").write(c)
        seen = {}; L = []; want = []
        def walk(depth, find=None):
            snap = list(seen.items())
            want.append(b"<%d" % len(snap))
            for k, v in snap:
                want.extend([k.encode(), v])
                if find is not None:
                    want.append(b"%d" % (find in files))
                    if find in files: seen.setdefault(find, files[find])
                    find = None
                if depth: walk(depth - 1)
            want.append(b">")
        for _ in range(r.randint(1, 25)):
            x = r.random(); n = r.choice(list(files) + ["nope", "a", "zz"])
            if x < 0.6:
                L += ["f", n]
                if n in files: want += [b"+", files[n]]; seen.setdefault(n, files[n])
                else: want.append(b"-")
            elif x < 0.85 and len(seen) < 12: k = r.choice([0, 1, 2]) if len(seen) < 6 else r.choice([0, 1]); L += ["i", str(k)]; walk(k)
            else: L += ["a", n]; walk(0, n)
        R = cx.d.call("loader", top, ext, *L)
        cx.ev(); cx.seen(("map", len(files), tuple(L))); cx.count("loader walked and asked", len(L) // 2)
        if R[1:] != want: cx.fail("the loader as a map", "files %r ext %r: %r: %r, expected %r" % (sorted(files), ext, L, R[1:], want))
    finally: shutil.rmtree(top, ignore_errors=True)


def i02_big(cx, r, i):
    """files of all sizes around powers of two, every byte but those that mean something to the language"""
    top = tempfile.mkdtemp(prefix="hbsi")
    try:
        n = r.choice([1, 2, 255, 256, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 100001])
        x = r.random()
        t = bytes(r.choice(b"abc \t\r%&<\\}\xff\x80\x01") for _ in range(min(n, 3000)))
        t = (t * (n // len(t) + 1))[:n].replace(b"\\", b"/")
        if x < 0.3: t = t[:-1] + b"\n"
        open(top + "/big.hbs", "wb").write(t)
        src = r.choice([b"{{> big}}", b"{{> big}}|", b"<{{> big}}", b"{{#> big}}{{/big}}", b"{{>big~}} x"])
        got = drv.Result(cx.d.call("render", "t", src, "p", top.encode() + b"\0.hbs", "pf", "l"))
        want = src.replace(b"{{> big}}", t).replace(b"{{#> big}}{{/big}}", t).replace(b"{{>big~}} x", t + b"x")
        cx.ev(); cx.count("big files"); cx.seen((n, src, t[-3:]))
        if not got.ok or got.out != want: cx.fail("contents of a file changed", "%r of %d bytes: %r" % (src, n, got.out[:200] if got.ok else got))
    finally: shutil.rmtree(top, ignore_errors=True)


def i02(ck):
    ck.rule = "distinct = (template, files present, result)"
    ck.assumptions += ["files do not change while a loader is in use", "every file in the directory can be read by the process"]
    ck.build("asan", "asand")
    ck.cases(i02_files, ck.q(2500, 60000), tag="fil")
    ck.cases(i02_files, ck.q(500, 10000), variant="asand", tag="fild")
    ck.cases(i02_scenario, ck.q(1000, 25000), tag="sc")
    ck.cases(i02_map, ck.q(1000, 15000), tag="map")
    ck.cases(i02_map, ck.q(300, 5000), variant="asand", tag="mapd")
    ck.cases(i02_big, ck.q(150, 2000), tag="big")


# ---------------------------------------------------------------- the command line
CLIFLAGS = {"compat": 1, "known_helpers_only": 16, "string_params": 2, "track_ids": 4, "no_escape": 8, "ignore_standalone": 256, "alternate_decorators": 512, "strict": 1024, "assume_objects": 2048, "mustache_style_lambdas": 4096}
MODES = {"lex": "lex", "parse": "ast", "compile": "opcodes", "module": "module", "execute": None}


def cli(variant): return os.path.join(build.BUILD, variant, "handlebarsc")


def run_cli(cx, args, top, stdin=b"", stdout=None, fds=()):
    """-> (status, stdout, stderr); what a sanitizer or signal says is a violation"""
    e = drv.san_env(); e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"] + ":detect_leaks=0"
    try: p = subprocess.run([cli(cx.d.variant)] + args, cwd=top, input=stdin if stdout is None else None, stdin=subprocess.DEVNULL if stdout is not None else None, stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, timeout=120, env=e, pass_fds=fds)
    except subprocess.TimeoutExpired: cx.fail("hang", "handlebarsc %r does not end" % (args,)); return None
    cx.ev()
    if p.returncode < 0 or p.returncode == 99 or b"Sanitizer" in p.stderr or b"runtime error" in p.stderr or b"Assertion" in p.stderr:
        cx.fail(drv.classify(p.returncode, p.stderr.decode("latin1")), "handlebarsc %r: status %d %s" % (args, p.returncode, p.stderr.decode("latin1")[-2500:])); return None
    return p.returncode, p.stdout, p.stderr


def modnorm(t): return re.sub(rb"(?m)^((ADDR|TS|HASH): .*|-{8,})$", b"-", t)


def clicfg(r): return Cfg_(partials=PN, helpers=[], bhelpers=[], missing=r.choice([0, 0.02]), text=r.choice(["plain", "ws"]), p_raw=0.02, tilde=0.1, p_pblock=0.1, bparams=0.4, p_partial=0.15, nullhelper=False, blocks=("each", "if", "unless", "with", "section", "invsec"))


def Cfg_(**kw): return tgen.Cfg(**kw)


def nuls(r, v):
    """NUL bytes inside some of the strings: they come out where the strings do"""
    if isinstance(v, dict): return {k: nuls(r, w) for k, w in v.items()}
    if isinstance(v, list): return [nuls(r, w) for w in v]
    if isinstance(v, str) and not isinstance(v, drv.Fn) and r.random() < 0.4: x = r.randint(0, len(v)); return v[:x] + "\0" + v[x:]
    return v


def l01_run(cx, r, i):
    from chk_lang import build as mkparts
    top = tempfile.mkdtemp(prefix="hbsl")
    try:
        c = clicfg(r)
        t, parts = mkparts(r, c, c, PN, 3, 4)
        src = tgen.source(t, r); src = src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape")
        ps = {k: drv.b(drvdec(tgen.source(v, r))) or b" " for k, v in parts.items()}
        x = r.random()
        if x < 0.08: src = mutate(r, src)
        elif x < 0.13: src = raw(r, r.choice([1, 10, 1023, 1024, 1025, 2048, 5000])); src = src if isinstance(src, bytes) else src.encode("latin1")
        elif x < 0.17: src += b"x" * r.choice([1024, 4096, 70000, 300000])
        elif x < 0.19: src += b"{{#if a}}"
        if not src: src = b"\n"
        data = clean(plain_data(tgen.rootdata(r)))
        if r.random() < 0.15: data = clean(document(r, 2))
        if r.random() < 0.2: data = nuls(r, data)
        mode = r.choice(["execute"] * 4 + ["lex", "parse", "compile", "module"])
        names = [n for n in CLIFLAGS if r.random() < r.choice([0, 0, 0.15, 0.5])]
        flags = sum(CLIFLAGS[n] for n in names)
        a = []
        if mode != "execute" or r.random() < 0.3: a.append(["--" + mode])
        if mode != "execute" and r.random() < 0.1: a.insert(0, ["--" + r.choice(list(MODES))]); ordered = True
        else: ordered = False
        if names: a.append(r.choice([["--flags=" + ",".join(names)], ["--flags", ",".join(names)]]))
        elif r.random() < 0.05: a.append(["--flags="])
        stdin = b""; fds = []
        # the template
        tf = r.choice(["t.hbs", "t", "t t.hbs", "é.hbs", "./t", "d.json"])
        y = r.random()
        if y < 0.12: stdin = src; how = "-"
        elif y < 0.2 and len(src) < 60000:
            rd, wr = os.pipe(); os.write(wr, src); os.close(wr); fds.append(rd); how = "/dev/fd/%d" % rd
        else: open(os.path.join(top, tf), "wb").write(src); how = tf
        if r.random() < 0.4: a.append(["-t", how] if r.random() < 0.5 else ["--template=" + how] if r.random() < 0.7 else ["-t" + how]); pos = None
        else:
            pos = how
            if r.random() < 0.1: a.append(["-t", "nonexistent"])
        # the data
        d = None; df = "j"
        if mode == "execute" and r.random() < 0.85 or r.random() < 0.1:
            z = r.random()
            if z < 0.4: name = r.choice(["d.yaml", "d.yml", "a.yml", "y.yaml", ".yml", "x.json.yml"]); df = "y"; d = ydoc(data, r).encode("utf-8", "surrogatepass")
            else: name = r.choice(["data.json", "d", "yml", "x.txt", "yaml", "data.yaml.json", "a.YML", "j"]); d = jtext(data, r).encode("utf-8", "surrogatepass")
            if r.random() < 0.05: d = d[:r.randint(1, len(d))]
            elif r.random() < 0.03: d += b" " * r.choice([1024, 70000])
            elif r.random() < 0.02: d = d + b"\0" + b"x"
            if how != "-" and df == "j" and r.random() < 0.12: stdin = d; name = "-"
            elif df == "j" and len(d) < 60000 and r.random() < 0.1:
                rd, wr = os.pipe(); os.write(wr, d); os.close(wr); fds.append(rd); name = "/dev/fd/%d" % rd
            else: open(os.path.join(top, name), "wb").write(d)
            a.append(r.choice([["-D", name], ["--data=" + name], ["--data", name]]))
            if df == "j" and r.random() < 0.4: a.append(["--no-convert-input"]); df = "w"
        # partials
        loader = r.random() < 0.6
        pdir, ext = ".", ".hbs"
        if loader:
            a.append(["--partial-loader"])
            if r.random() < 0.6: pdir = r.choice(["parts", "p p", os.path.join(top, "abs"), "parts/sub"]); a.append(["--partial-path=" + pdir])
            if r.random() < 0.4: ext = r.choice([".x", "", ".hbs.txt"]); a.append(["--partial-ext=" + ext] if ext else ["--partial-ext", ""])
        pd = os.path.join(top, pdir); os.makedirs(pd, exist_ok=True)
        for k, v in ps.items():
            if not os.path.exists(os.path.join(pd, k + ext)): open(os.path.join(pd, k + ext), "wb").write(v)
        if r.random() < 0.3: a.append(["--pool-size=%s" % r.choice([0, 1, 64, 4096, 1 << 24])])
        nl = True
        if r.random() < 0.3: a.append([r.choice(["-n", "--no-newline"])]); nl = False
        if r.random() < 0.2: a.append(["--run-count=%s" % r.choice([0, 1, 2, 5, -1])])
        if r.random() < 0.05: a.append(["--pretty-print"])
        if not ordered: r.shuffle(a)
        args = [w for o in a for w in o]
        if pos is not None:
            if r.random() < 0.5: args.append(pos)
            elif r.random() < 0.5 and not ordered and pos != "-": args.insert(0, pos)
            else: args += ["--", pos] if r.random() < 0.5 else [pos]
        # what the library says
        drvr = cx.d
        os_dir = os.getcwd()
        lp = (os.path.normpath(os.path.join(top, pdir)) if pdir != "." else top + "/.").encode()
        if mode == "execute":
            q = ["t", src, "f", str(flags)]
            if d: q += ["d", d, "df", df]
            if loader: q += ["p", lp + b"\0" + ext.encode(), "pf", "l"]
            W = drv.Result(drvr.call("render", *q))
        elif mode == "module": W = drv.Result(drvr.call("render", "t", src, "f", str(flags), "fk", "module"))
        else: W = drv.Result(drvr.call("front", MODES[mode], str(flags), src))
        nuly = df == "y" and d and b"\0" in d
        R = run_cli(cx, args, top, stdin, fds=fds)
        for fd in fds: os.close(fd)
        if R is None: return
        rc, out, err = R
        cx.seen((args, src, out, err)); cx.count("mode " + mode)
        if nuly and mode == "execute":
            if rc == 0 or out: cx.fail("data with a NUL used in part", "%r %r" % (args, d))
            return
        if W.ok:
            cx.count("results")
            want = W.out
            if mode == "execute" and nl: want += b"\n"
            if mode == "module": want, out = modnorm(want), modnorm(out)
            if rc != 0 or out != want: cx.fail("command line differs from the library (%s)" % mode, "%r (template %r, data %r) printed %r status %d stderr %r, the library says %r" % (args, src[:2000], d, out[:3000], rc, err[-500:], want[:3000]))
        else:
            cx.count("errors")
            full = W.full.replace(os.fsencode(top) + b"/./", b"./") if pdir == "." else W.full
            if rc == 0 or out: cx.fail("error not reported as one", "%r (template %r data %r): status %d, stdout %r, stderr %r; library error %r" % (args, src[:2000], d, rc, out[:500], err[-500:], W.full))
            elif b"ERROR: " + full not in err and b"partial" not in full: cx.fail("different error reported", "%r (template %r data %r): stderr %r; library error %r" % (args, src[:2000], d, err[-500:], W.full))
    finally: shutil.rmtree(top, ignore_errors=True)


def l01_log(cx, r, i):
    """the log helper of the tool writes its arguments to stderr, and nothing else changes"""
    from chk_data import vdump
    def V(x):
        if x is None: return ("N",)
        if x is True or x is False: return ("T",) if x else ("F",)
        if isinstance(x, int): return ("I", x)
        if isinstance(x, float): return ("D", x)
        if isinstance(x, list): return ("L", tuple(V(y) for y in x))
        if isinstance(x, dict): return ("M", tuple((k.encode(), V(y)) for k, y in x.items()))
        return ("S", x.encode(), False)
    def doc(d):
        x = r.random()
        if d and x < 0.25: return [doc(d - 1) for _ in range(r.randint(0, 4))]
        if d and x < 0.5: return {k: doc(d - 1) for k in r.sample(["a", "b", "long name", "é"], r.randint(0, 3))}
        return r.choice([None, True, False, 0, -5, 10 ** 12, 0.5, -2.25, "", "text", "two\nlines", "<&>", "é"])
    top = tempfile.mkdtemp(prefix="hbsl")
    try:
        data = {k: doc(r.choice([0, 1, 3])) for k in "abcd"}
        if r.random() < 0.1:
            for _ in range(r.choice([5, 20, 24])): data["a"] = [data["a"]] if r.random() < 0.5 else {"k": data["a"]}
        src, err, out = b"", b"", b""
        for _ in range(r.randint(1, 3)):
            ks = [r.choice(["a", "b", "c", "d", "zz", '"lit"', "12", "true"]) for _ in range(r.randint(1, 4))]
            src += b"[{{log %s}}]" % " ".join(ks).encode(); out += b"[]"
            lit = {"zz": ("N",), '"lit"': ("S", b"lit", False), "12": ("I", 12), "true": ("T",)}
            err += b"[INFO] " + b"".join(vdump(lit[k] if k in lit else V(data[k])) + b" " for k in ks) + b"\n"
        open(os.path.join(top, "t"), "wb").write(src)
        open(os.path.join(top, "d.json"), "w").write(json.dumps(data))
        R = run_cli(cx, ["t", "-n", "-D", "d.json"] + r.choice([[], [], ["--no-convert-input"]]), top)
        if R is None: return
        cx.ev(); cx.count("logged"); cx.seen((src, R[2]))
        if R != (0, out, err): cx.fail("log", "%r data %r: status %d stdout %r stderr %r, expected %r" % (src, data, R[0], R[1], R[2], err))
    finally: shutil.rmtree(top, ignore_errors=True)


def l01_usage(cx, r, i):
    """wrong usage, unreadable and empty files, full disks"""
    top = tempfile.mkdtemp(prefix="hbsl")
    try:
        W = lambda n, b: open(os.path.join(top, n), "wb").write(b)
        W("t.hbs", b"x{{a}}{{#each l}}{{this}}{{/each}}"); W("d.json", b'{"a":1,"l":[1,2]}'); W("d.yaml", b"a: 1\nl: [1, 2]\n"); W("empty", b""); W("empty.yml", b""); os.mkdir(os.path.join(top, "dir")); os.mkdir(os.path.join(top, "dir.yml")); W("bad.json", b"{"); W("bad.yml", b"[")
        mode = r.choice([[], ["--lex"], ["--parse"], ["--compile"], ["--module"], ["--execute"]])
        ex = not mode or mode == ["--execute"]
        bad = [["empty"], ["dir"], ["nope"], ["-t", "nope"], ["--template=dir"], ["-t", "empty"], ["--bogus", "t.hbs"], ["-Z", "t.hbs"], ["t.hbs", "--flags"], ["t.hbs", "-D"], ["t.hbs", "-t"], ["--data"], ["--no-newline=1", "t.hbs"], ["nope", "-D", "d.json"], ["/nonexistent/t"], ["t.hbs/x"], ["x" * 5000], [""], ["-t", ""], ["--partial-path", "--run-count"]]
        if ex: bad += [["t.hbs", "-D", "nope"], ["t.hbs", "-D", "dir"], ["t.hbs", "-D", "dir.yml"], ["t.hbs", "-D", "empty"], ["t.hbs", "-D", "empty.yml"], ["t.hbs", "-D", "bad.json"], ["t.hbs", "-D", "bad.yml"], ["t.hbs", "-D", "d.yaml", "-D", "bad.json"], ["t.hbs", "-D", ""], ["t.hbs", "-D", "d.json", "--no-convert-input", "-D", "bad.json"], ["t.hbs", "-D", "t.hbs"]]
        n = r.random()
        if n < 0.55:
            args = mode + r.choice(bad)
            R = run_cli(cx, args, top)
            if R is None: return
            cx.count("wrong usage"); cx.seen((args, R))
            if R[0] == 0 or R[1] or not R[2]: cx.fail("wrong usage or unreadable input not refused", "%r: status %d stdout %r stderr %r" % (args, R[0], R[1][:300], R[2][:300]))
        elif n < 0.65:
            R = run_cli(cx, [], top)
            if R and (R[0] == 0 or b"Usage" not in R[1] + R[2]): cx.fail("no arguments", repr(R))
            R = run_cli(cx, [r.choice(["-h", "--help"])], top)
            if R and (R[0] != 0 or not R[1].startswith(b"Usage:")): cx.fail("help", repr(R))
            R = run_cli(cx, [r.choice(["-V", "--version"])], top)
            if R and (R[0] != 0 or b"handlebarsc v" not in R[1]): cx.fail("version", repr(R))
            cx.count("help and version")
        elif n < 0.8:
            R = run_cli(cx, mode + ["-"], top, b"")
            if R is None: return
            cx.count("empty standard input"); cx.seen(("empty", tuple(mode), R[:2]))
            what = {"--lex": "lex", "--parse": "ast", "--compile": "opcodes"}.get((mode or [""])[0])
            if what:
                w = drv.Result(cx.d.call("front", what, "0", b""))
                if w.ok and (R[0] != 0 or R[1] != w.out): cx.fail("empty standard input", "%r: %r" % (mode, R))
            elif ex and (R[0] != 0 or R[1] != b"\n"): cx.fail("empty standard input", "%r: %r" % (mode, R))
        else:
            args = mode + ["t.hbs"] + (["-D", r.choice(["d.json", "d.yaml"])] if ex else [])
            with open("/dev/full", "wb") as f: R = run_cli(cx, args, top, stdout=f)
            cx.count("output that cannot be written")
            if R: cx.seen(("full", tuple(args), R[0], R[2][:60]))
            if R and (R[0] == 0 or not R[2]): cx.fail("lost output not reported", "%r > /dev/full: status %d stderr %r" % (args, R[0], R[2][:300]))
    finally: shutil.rmtree(top, ignore_errors=True)


def l01(ck):
    ck.rule = "distinct = (arguments, template, output, errors)"
    ck.assumptions += ["time stamp, address and checksum of a printed module are not compared", "wording of errors about files is not compared", "empty template and data files are refused, empty standard input is a template"]
    ck.build("asan", "asand")
    ck.cases(l01_run, ck.q(2400, 40000), tag="run")
    ck.cases(l01_run, ck.q(600, 10000), variant="asand", tag="rund")
    ck.cases(l01_usage, ck.q(600, 6000), tag="use")
    ck.cases(l01_log, ck.q(400, 6000), tag="log")
    ck.cases(l01_log, ck.q(100, 1500), variant="asand", tag="logd")
    ck.cases(l01_usage, ck.q(200, 2000), variant="asand", tag="used")


TABLE = {"I01": i01, "I02": i02, "L01": l01}
