"""S01-S06: memory safety, out of memory, containment of errors, purity, no lost memory, limits of nesting."""
import copy, glob, json, os, random, re, shutil, subprocess, tempfile
import build, drv, model, tgen
from drv import Fn, Safe
from tgen import Cfg, Gen
from chk_lang import build as mkparts, PN, big, drvdec
from chk_text import tokens, raw

FLAGS = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096]
SPECIAL = [b"{{", b"}}", b"{{{", b"}}}", b"{{{{", b"}}}}", b"{{#", b"{{/", b"{{^", b"{{else}}", b"{{!--", b"--}}", b"{{>", b"{{#>", b"{{&", b"{{~", b"~}}", b"../", b"./", b"@", b"@root", b"this", b"as |a b|", b"|", b"(", b")", b"=", b"\"", b"'", b"[", b"]", b"\\", b"\x00", b"\xff",
           b"{{=", b"=}}", b"{{=<% %>=}}", b"<%", b"%>", b"{{*", b"{{#*inline \"p\"}}", b"{{/inline}}", b"@partial-block", b"{{> @partial-block}}", b"\n", b"\r\n", b" ", b"9" * 25, b"-", b".", b"..", b"{{#each items}}", b"{{/each}}", b"{{#if a}}", b"{{/if}}", b"{{lookup a b}}", b"{{> p}}", b"{{> (hId \"p\")}}", b"{{log a}}", b"\xc3\xa9", b"\xf0\x9f", b"true", b"null", b"undefined"]


def mutate(r, s, other=b"", n=None):
    for _ in range(n or r.choice([1, 1, 2, 3, 6, 15])):
        k = r.random()
        a = r.randint(0, len(s)); b = min(len(s), a + r.choice([1, 1, 2, 3, 8, 40]))
        if k < 0.15: s = s[:a] + s[b:]
        elif k < 0.3: s = s[:a] + r.choice(SPECIAL) + s[a:]
        elif k < 0.4: s = s[:a] + r.choice(SPECIAL) + s[b:]
        elif k < 0.5 and s: s = s[:a] + bytes([r.randint(0, 255)]) + s[a + 1:]
        elif k < 0.6: s = s[:a] + s[a:b] * r.choice([2, 2, 3, 20]) + s[b:]
        elif k < 0.7: s = s[:a] + raw(r, r.choice([1, 3, 30])) + s[a:]
        elif k < 0.8 and other: c = r.randint(0, len(other)); s = s[:a] + other[c:c + r.choice([5, 20, 100])] + s[a:]
        elif k < 0.85: s = s[:a]
        else:
            t = tokens(s)
            if t:
                (a, b), (c, e) = r.choice(t), r.choice(t)
                s = r.choice([s[:a] + s[b:], s[:a] + s[c:e] + s[b:], s[:b] + s[c:e] + s[b:]])
        if len(s) > 20000: s = s[:20000]
    return s


def config(r, wide=False):
    return Cfg(partials=PN, missing=r.choice([0, 0.02]), text=r.choice(["plain", "ws"]), p_raw=0.03, tilde=r.choice([0, 0.1]), p_pblock=0.1, bparams=0.5, p_partial=0.15, fn=True)


def flagset(r, p=0.55):
    if r.random() < p: return 0
    f = 0
    for _ in range(r.choice([1, 1, 2, 4])): f |= r.choice(FLAGS)
    return f


EXTRA_HELPERS = {"throw": "throw", "lamtext": "lamtext", "list": "list"}


def scenario(r, depth=3, width=5):
    """a whole rendering: source, partials (source text), data, helpers, keyword arguments"""
    c = config(r)
    t, parts = mkparts(r, c, c, PN, depth, width)
    data = tgen.rootdata(r, fn=r.random() < 0.2)
    big(r, data)
    h = tgen.helper_map(c)
    src = tgen.source(t, r)
    ps = {k: drvdec(tgen.source(v, r)) for k, v in parts.items()}
    return src, ps, data, h


def req(src, ps, data, h, flags=0, df="n", dd=None, extra=()):
    d = data if isinstance(data, bytes) else drv.encv(data) if df == "n" else json.dumps(data).encode()
    a = ["t", src, "d", d, "df", df, "p", drv.encv(ps) if not isinstance(ps, bytes) else ps, "pf", "n"]
    if h: a += ["h", ",".join("%s:%s" % kv for kv in h.items())]
    if flags: a += ["f", str(flags)]
    if dd is not None: a += ["dd", drv.encv(dd)]
    return a + list(extra)


def plain_data(v):
    """what JSON can say: no callables"""
    if isinstance(v, Fn): return str(v)
    if isinstance(v, dict): return {k: plain_data(x) for k, x in v.items()}
    if isinstance(v, list): return [plain_data(x) for x in v]
    return v


# ---------------------------------------------------------------- S01
JSONS = [b"{", b"}", b"[", b"]", b":", b",", b"\"", b"\\u0000", b"\\ud800", b"\\", b"1e999", b"-", b"1.", b"nul", b"true", b"\xff", b"\x00", b"{\"a\":", b"[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[", b"9" * 40, b"/**/", b"'"]
YAMLS = [b"&a ", b"*a", b"? ", b": ", b"- ", b"\n", b"\n  ", b"|\n  x\n", b">\n  x\n", b"!!str ", b"!!binary ", b"{", b"}", b"[", b"]", b"<<: *a", b"---\n", b"...\n", b"%YAML 1.1\n", b"\"", b"'", b"\\x00", b"~", b"null", b".nan", b".inf", b"0x1f", b"\t", b"#c", b"\xff", b"? [a]\n: b\n", b"? {a: b}\n: c\n", b"a: &b {c: *b}\n"]


def yaml_of(v, r=None, ind=0):
    """block style YAML text of a document of strings, numbers, booleans, null, lists, objects"""
    pad = " " * ind
    if isinstance(v, dict) and v:
        return "".join("%s%s:%s" % (pad, json.dumps(str(k)), ("\n" + yaml_of(x, r, ind + 2)) if isinstance(x, (dict, list)) and x else " " + yaml_of(x, r)) for k, x in v.items())
    if isinstance(v, list) and v:
        return "".join("%s-%s" % (pad, ("\n" + yaml_of(x, r, ind + 2)) if isinstance(x, (dict, list)) and x else " " + yaml_of(x, r)) for x in v)
    return json.dumps(v) + "\n"


def s01_render(cx, r, i):
    src, ps, data, h = scenario(r)
    if r.random() < 0.3: h = dict(h, **EXTRA_HELPERS)
    x = r.random()
    if x < 0.75: src = mutate(r, src, ps["p"].encode("utf-8", "surrogateescape"))
    elif x < 0.8: src = raw(r, r.choice([3, 30, 300]))
    if r.random() < 0.4:
        k = r.choice(PN); ps = dict(ps); ps[k] = drvdec(mutate(r, ps[k].encode("utf-8", "surrogateescape"), src))
    f = flagset(r)
    df = r.choice("nnnjwy")
    if df != "n":
        data = plain_data(data)
        d = json.dumps(data).encode() if df != "y" or r.random() < 0.3 else yaml_of(data).encode()
        if r.random() < 0.25: d = mutate(r, d, n=r.choice([1, 2]))
        if df == "y": d = d.replace(b"\0", b"")
        data = d
    extra = []
    if r.random() < 0.2: extra += ["c", r.choice(["simple", "simple", "mmap"])]
    if r.random() < 0.1: extra += ["runs", "3"]
    if r.random() < 0.1: extra += ["kh", "hCat,hId,noSuchHelper"]
    if r.random() < 0.1: extra += ["log", "1"]
    if r.random() < 0.3: extra += ["outer", "0"]
    R = cx.d.call("render", *req(src, ps, data, h, f, df, extra=extra))
    cx.ev(); cx.seen((R[0], R[1][:300])); cx.count("bytes of template", len(src)); cx.count("rendered" if R[0] == b"ok" else "errors")
    if R[0] != b"ok":
        if not R[2]: cx.fail("error without a message", "template %r got %r" % (src, R[:4]))


def s01_front(cx, r, i):
    src = scenario(r)[0] if r.random() < 0.85 else raw(r, r.choice([3, 30, 300]))
    if r.random() < 0.8: src = mutate(r, src)
    f = flagset(r)
    w = r.choice(["lex", "ast", "astsrc", "opcodes", "module", "compile", "parse"])
    R = cx.d.call("front", w, str(f), src, *(["hCat"] if r.random() < 0.1 else []))
    cx.ev(); cx.seen((w, R[0], R[1][:300])); cx.count(w + (" accepted" if R[0] == b"ok" else " refused"))
    if w == "parse": cx.d.call("lex", src)


def s01_data(cx, r, i):
    """hostile documents"""
    data = plain_data(tgen.rootdata(r))
    kind = r.choice("jwyJ")
    if kind in "jJw": d = json.dumps(data, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1])).encode("utf-8", "surrogatepass")
    else: d = yaml_of(data).encode()
    sp = YAMLS if kind == "y" else JSONS
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        a = r.randint(0, len(d)); b = min(len(d), a + r.choice([0, 0, 1, 5]))
        d = d[:a] + r.choice([r.choice(sp), r.choice(sp), raw(r, 2), d[a:b] * 2]) + d[b:]
    if r.random() < 0.1: d = raw(r, r.choice([0, 1, 5, 50]))
    if kind in "yJ": d = d.replace(b"\0", b" ")
    if kind == "y" and d.count(b"*a") > 6: return
    R = cx.d.call("render", "t", b"{{{hEnc this}}}{{#each this}}{{@key}}={{this}};{{/each}}{{a.b}}{{items.[1]}}{{obj.n.c}}{{#with obj}}{{#each .}}{{.}}{{/each}}{{/with}}", "d", d, "df", kind, "h", "hEnc:enc", "mut", "1")
    cx.ev(); cx.seen((kind, R[0], R[1][:300])); cx.count("documents accepted" if R[0] == b"ok" else "documents refused")


def s01_known_hard(cx, r, i):
    """inputs that are hard on counters, buffers and recursion"""
    n = r.choice([1, 7, 255, 256, 257, 1000, 5000])
    o, m, c = r.choice([("{{#if a}}", "x", "{{/if}}"), ("{{#a}}", "x", "{{/a}}"), ("{{^a}}", "x", "{{/a}}"), ("{{hCat ", "a", "}}"), ("{{hCat (", "hCat", ")}}"), ("{{a.", "a", "}}"), ("{{../", "a", "}}"), ("{{#each items as |v|}}", "{{v}}", "{{/each}}"), ("{{#> p}}", "x", "{{/p}}"), ("{{!--", "-", "--}}"),
                        ("\\", "{{a}}", ""), ("{{", "{", "}}"), ("{{{{a}}}}", "{{{{/", "a}}}}"), ("{{#if a}}x{{else}}", "y", "{{/if}}"), ("{{a \"", "x", "\"}}"), ("{{[", "x", "]}}"), ("{{=| |=}}", "|a|", "|={{ }}=|"), ("{{#if a}}x{{else if b}}", "y", "{{/if}}"), ("{{~", "a", "~}}"), ("\n  {{> p}}", "\n", "\n"), (" \n", "{{a}}", " \n ")])
    k = r.random()
    if k < 0.3: s = o * n + m + c * n
    elif k < 0.5: s = o + m * n + c
    elif k < 0.6: s = o + " ".join([m] * min(n, 300)) + c
    elif k < 0.7: s = o * n
    elif k < 0.8: s = m * n + c * n
    else: s = (o + m + c) * min(n, 1000)
    f = flagset(r, 0.8)
    R = cx.d.call("render", *req(s.encode(), {"p": r.choice(["x", "{{> p}}", "a\nb\n", "{{> q}}", "\n"]), "q": "{{#> p}}{{/p}}"}, {"a": {"a": 1}, "items": [1]}, {"hCat": "cat"}, f))
    cx.ev(); cx.seen((o, m, c, n, k < 0.3, R[0])); cx.count("oversized templates")
    if r.random() < 0.5: cx.d.call("front", r.choice(["lex", "ast", "astsrc", "opcodes", "module"]), str(f), s)


def s01_loader(cx, r, i):
    base = cx.loader_dir
    names = ["a", "b", "sub/c", "../a", "/etc/hostname", "a\0b", "", ".", "..", "d", "empty", "no", "x" * 300, "sub", "a.hbs", "\xff", "a/b/c/" * 40, "%s%n"]
    src = "".join(r.choice(["{{> %s}}", "{{#> %s}}x{{/%s}}", "{{> (hId \"%s\")}}", "{{> (lookup . \"k\")}}"]).replace("%s", r.choice(["a", "b", "sub/c", "d"])) for _ in range(r.randint(1, 4)))
    nm = r.choice(names)
    R = cx.d.call("render", "t", src + ("{{> (lookup . \"k\")}}" if r.random() < 0.7 else ""), "d", drv.encv({"k": nm}), "df", "n", "pf", "l", "p", base + "\0" + r.choice([".hbs", "", ".nope"]), "h", "hId:id", "outer", str(r.choice([0, 1])))
    cx.ev(); cx.seen((src, nm, R[0], R[1])); cx.count("loader renders")


def cache_choice(cx, r):
    k = r.choice(["simple", "mmap", "lmdb"])
    if k != "lmdb": return ["c", k]
    return ["c", k, "cp", cx.loader_dir + "/%d-%d.db" % (os.getpid(), r.randrange(4))]


def loader_tree():
    d = tempfile.mkdtemp(prefix="hbs-loader-")
    os.makedirs(d + "/sub"); os.makedirs(d + "/d.hbs")
    for n, s in (("a.hbs", b"A{{k}}"), ("b.hbs", b"B{{> a}}\n"), ("sub/c.hbs", b"C\n{{> b}}"), ("empty.hbs", b"")):
        with open(d + "/" + n, "wb") as f: f.write(s)
    return d


def with_loader(fn, d):
    def g(cx, r, i):
        cx.loader_dir = d
        fn(cx, r, i)
    return g


# coverage-guided part
FUZZ = {"hbsfuzz": (["fuzz.c"], ["-fsanitize=fuzzer"] + drv.HARNESS["hbsdrv"][1])}


def fuzz(ck):
    exe = build.ensure("fuzz", FUZZ) + "/hbsfuzz"
    work = tempfile.mkdtemp(prefix="hbs-fuzz-")
    try:
        procs = []
        for w in range(8):
            cd = "%s/c%d" % (work, w); os.makedirs(cd)
            for k in range(120):
                r = random.Random("%d:fuzz:%d:%d" % (ck.seed, w, k))
                src, ps, data, h = scenario(r, 2, 3)
                data = plain_data(data)
                y = r.random() < 0.3
                body = src[:1500] + b"\xff" + (yaml_of(data).encode() if y else json.dumps(data).encode())[:600] + b"\xff" + ps["p"].encode("utf-8", "surrogateescape")[:300]
                with open("%s/%d" % (cd, k), "wb") as f: f.write(bytes([(1 if y else 0) if r.random() < 0.7 else r.randint(0, 15), r.choice([0, 0, 1, 2, 4, 7, 9, 128, 129])]) + body)
            with open(work + "/dict", "w") as f:
                for n, t in enumerate(SPECIAL): f.write("k%d=\"%s\"\n" % (n, "".join("\\x%02x" % b for b in t)))
            cmd = [exe, cd, "-seed=%d" % (ck.seed * 100 + w + 1), "-runs=%d" % ck.q(5000, 500000), "-max_total_time=%d" % ck.q(60, 780), "-max_len=2500", "-timeout=60", "-rss_limit_mb=3500", "-dict=" + work + "/dict", "-artifact_prefix=%s/w%d-" % (work, w), "-print_final_stats=1", "-verbosity=1", "-use_value_profile=0"]
            e = drv.san_env(False)
            procs.append((w, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open("%s/log%d" % (work, w), "wb"), env=e, cwd=work)))
        for w, p in procs:
            rc = p.wait()
            t = open("%s/log%d" % (work, w), "rb").read().decode("latin1")
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
            n = int(m.group(1)) if m else 0
            ck.evals += n; ck.counters["fuzzer executions"] += n
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", t)
            if cov:
                ck.notes["fuzzer %d" % w] = "edges %s, features %s, corpus %s" % cov[-1]
                for k in range(int(cov[-1][2])): ck.distinct.add(("fuzz", w, k))
            if rc != 0:
                arts = glob.glob("%s/w%d-*" % (work, w))
                kind = drv.classify(rc, t)
                os.makedirs(build.VERIF + "/work", exist_ok=True)
                keep = None
                if arts: keep = build.VERIF + "/work/S01-fuzz-%d" % w; shutil.copyfile(arts[0], keep)
                if "timeout" in t and "ALARM" in t: kind = "hang"
                ck.violation(kind, "%s (fuzzer)\n%s" % (kind, t[-3500:]), {"input": keep, "bytes": open(arts[0], "rb").read().hex()[:4000] if arts else None})
    finally:
        shutil.rmtree(work, ignore_errors=True)


def s01(ck):
    ck.rule = "distinct = (kind of operation, result); fuzzer: inputs kept because they reached new code"
    ck.build("asan", "asand", "vg")
    d = loader_tree()
    try:
        ck.cases(s01_render, ck.q(6000, 120000), tag="rnd")
        ck.cases(s01_render, ck.q(4000, 60000), variant="asand", tag="rndd")
        ck.cases(s01_front, ck.q(4000, 60000), variant="asand", tag="front")
        ck.cases(s01_front, ck.q(2000, 40000), tag="frontn")
        ck.cases(s01_data, ck.q(4000, 80000), variant="asand", tag="data")
        ck.cases(s01_known_hard, ck.q(600, 4000), tag="hard", timeout=60)
        ck.cases(s01_known_hard, ck.q(300, 2000), variant="asand", tag="hardd", timeout=60)
        ck.cases(with_loader(s01_loader, d), ck.q(400, 4000), tag="load")
        n0 = ck.evals
        ck.cases(s01_render, ck.q(240, 6000), variant="vg", tag="vgr", timeout=120)
        ck.cases(s01_front, ck.q(160, 4000), variant="vg", tag="vgf", timeout=120)
        ck.cases(s01_data, ck.q(160, 4000), variant="vg", tag="vgd", timeout=120)
        ck.counters["evaluations watched for uninitialised values (valgrind)"] += ck.evals - n0
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fuzz(ck)
    ck.assumptions += ["memory errors inside json-c, libyaml, talloc and LMDB themselves are not looked for", "a YAML document may still expand a lot through nested aliases; that is not counted as a hang"]


# ---------------------------------------------------------------- S02
def s02_case(cx, r, i):
    c = Cfg(helpers=["id", "cat", "list", "hash", "enc"], bhelpers=["blk", "ctx", "bp", "frame"], partials=PN[:2], text=r.choice(["plain", "ws"]), depth=2, tilde=0.1, p_pblock=0.12, bparams=0.4, p_partial=0.15, missing=r.choice([0, 0.03]), p_raw=0.05)
    t, parts = mkparts(r, c, c, PN[:2], 2, r.choice([1, 2, 4]))
    src = tgen.source(t, r)
    if r.random() < 0.15: src = mutate(r, src, n=1)
    data = tgen.rootdata(r)
    if r.random() < 0.8: data = {k: v for k, v in data.items() if r.random() < 0.5}
    df = r.choice("nnjwy")
    ps = {k: drvdec(tgen.source(v, r)) for k, v in parts.items()}
    f = r.choice([0, 0, 0, 1, 8, 32, 128, 256, 4097])
    extra = []
    mode = "0"
    x = r.random()
    if x < 0.3: extra = ["fk", r.choice(["lex", "ast", "astsrc", "opcodes", "module", "parse", "compile"])]
    elif x < 0.5: extra = cache_choice(cx, r)
    if r.random() < 0.3: mode = "1"
    if r.random() < 0.15: extra += ["log", "1"]; src = src + b"{{log this a items o}}" if isinstance(src, bytes) else src + "{{log this a items o}}"
    rq = req(src, ps, data if df == "n" else plain_data(data), tgen.helper_map(c), f, df, extra=extra)
    if r.random() < 0.15: # partials from files
        k = rq.index("p"); rq[k + 1] = cx.loader_dir + "\0.hbs"; rq[rq.index("pf") + 1] = "l"
        rq[1] = rq[1] + b"{{> a}}{{> b}}"
    try: B = cx.d.call("allocfail", "1", "1", "0", mode, *rq)
    except drv.Crash as e: raise
    total = int(B[1])
    if total > 60000: cx.count("skipped: too many allocations"); return
    pts = 150 if cx.tier == "quick" else 1500
    step = max(1, (total + pts - 1) // pts)
    first = r.randint(1, step)
    R = cx.d.call("allocfail", str(first), str(step), str(pts + 1), mode, *rq)
    cx.ev(int(R[2])); cx.count("allocations failed", int(R[2])); cx.count("clean errors", int(R[3])); cx.count("completed all the same", int(R[4])); cx.count("allocations in all templates", total)
    cx.seen((src, f, tuple(extra), df))
    if R[5]: cx.fail(re.sub(r"k=\d+: |\(.*", "", R[5].decode("latin1"))[:60].strip(), "template %r partials %r data %r flags %d %s df %s: %s" % (src, ps, data, f, extra, df, R[5].decode("latin1")))


def s02(ck):
    ck.rule = "distinct = (template, options, front-end or cache, data format); each is swept over its allocations"
    ck.build("asan", "asand")
    d = loader_tree()
    try:
        ck.cases(with_loader(s02_case, d), ck.q(500, 4000), tag="oom", timeout=120)
        ck.cases(with_loader(s02_case, d), ck.q(150, 1500), variant="asand", tag="oomd", timeout=120)
    finally: shutil.rmtree(d, ignore_errors=True)
    ck.assumptions += ["one failure at a time, of an allocation the library makes itself (its own failure injection, --enable-handlebars-memory); allocations inside json-c and libyaml are not failed", "a failure to allocate an error message may turn that error into out-of-memory"]


# ---------------------------------------------------------------- S03, S04
BAD_SYNTAX = [b"{{#if a}}x", b"{{", b"{{a b=}}", b"{{/x}}", b"{{#a}}{{/b}}", b"a{{{b}}", b"{{!-- x", b"{{{{raw}}}}x", b"{{a.1b.}}", b"{{#if a as |}}{{/if}}", b"\0", b"{{a \"x}}", b"{{../a b ../..}}{{#}}"]
BAD_COMPILE = [b"{{> p a b}}", b"{{#if a}}" * 80 + b"x" + b"{{/if}}" * 80, b"{{hCat " + b"(hCat " * 120 + b"1" + b")" * 120 + b"}}", b"{{* deco}}", b"{{#* inline}}x{{/inline}}"]
BAD_RUN = [b"a{{hThrow items}}b", b"{{noSuchHelper a}}", b"{{> nope}}", b"{{#> nope}}{{hThrow a}}{{/nope}}", b"{{#each items}}{{#with this}}{{hThrow .}}{{/with}}{{/each}}", b"{{> bad}}", b"x{{#each items as |v k|}}{{> bad v}}{{/each}}", b"{{> rec}}", b"{{#> wrap}}{{hThrow 1}}{{/wrap}}", b"{{hCat (hThrow 1) 2}}", b"{{#hBlk a}}{{#hBp b as |x|}}{{> nope}}{{/hBp}}{{/hBlk}}", b"{{#if}}{{/if}}", b"{{lookup}}", b"{{> synbad}}", b"{{#each items}}{{> synbad}}{{/each}}", b"{{#> synbad}}{{a}}{{/synbad}}", b"{{a}}{{> (hId \"nope\")}}"]
MORE_PARTIALS = {"bad": "x{{hThrow this}}y", "rec": "{{a}}{{> rec}}", "wrap": "[{{> @partial-block}}]", "synbad": "{{#if a}}oops"}


class Session:
    """objects that live in one context, and what a fresh set of objects does instead"""
    def __init__(self, cx, r):
        self.cx, self.d, self.r = cx, cx.d, r
        self.base = config(r)
        self.fresh = {}
        self.d.call("ctx_new", 0)
        self.mods = {}
        self.vms = []
        self.nmod = 0

    def template(self, depth=2, width=4):
        t, parts = mkparts(self.r, self.base, self.base, PN, depth, width)
        return tgen.source(t, self.r), {k: drvdec(tgen.source(v, self.r)) for k, v in parts.items()}

    def add_vm(self, partials, helpers, flags, cache=None, dd=None):
        n = len(self.vms)
        if cache: self.d.call("cache_new", n, 0, cache, "64" if cache == "simple" else "8388608", "32" if cache == "simple" else "64")
        self.vms.append(dict(p=partials, h=helpers, f=flags, dd=dd))
        R = self.d.call("vm", n, 0, flags, "n", drv.encv(partials), ",".join("%s:%s" % x for x in helpers.items()), str(n) if cache else "", drv.encv(dd) if dd is not None else "")
        assert R[0] == b"ok", R
        return n

    def expect(self, vm, src, data):
        """the same on fresh objects (in a driver of its own)"""
        k = (vm, src, repr(data))
        if k not in self.fresh:
            v = self.vms[vm]
            self.fresh[k] = drv.Result(self.d.call("render", *req(src, v["p"], data, v["h"], v["f"], dd=v["dd"], extra=["log", "1"])))
        return self.fresh[k]

    def module(self, vm, src):
        """slot of the compiled template, or the error"""
        k = (self.vms[vm]["f"], src)
        if k not in self.mods:
            n = self.nmod
            R = self.d.call("compile", n, 0, k[0], src)
            if R[0] == b"ok":
                self.mods[k] = n; self.nmod += 1
            else: self.mods[k] = drv.Result(R)
        return self.mods[k]


def mkcx_session(cx, r, stable=False):
    s = Session(cx, r)
    src, parts = s.template()
    h = dict(tgen.helper_map(s.base), hThrow="throw")
    p = dict(parts, **MORE_PARTIALS)
    good = [src] + [s.template()[0] for _ in range(r.randint(2, 4))]
    bad = [r.choice(BAD_SYNTAX), r.choice(BAD_COMPILE)] + [r.choice(BAD_RUN) for _ in range(3)] + [mutate(r, r.choice(good)) for _ in range(2)]
    datas = [tgen.rootdata(r, fn=r.random() < 0.3) for _ in range(3)]
    for x in datas: x.setdefault("items", [1, 2])
    s.add_vm(p, h, 0)
    s.add_vm({k: p[k] for k in list(p)[::2]}, dict(list(h.items())[::2]), flagset(r, 0.3) & ~512, cache=r.choice([None, "simple", "simple"]), dd={"k": 1, "root": "R"} if r.random() < 0.3 else None)
    if r.random() < 0.5: s.add_vm(p, h, r.choice([0, 0, 8, 4097]), cache=r.choice(["simple", None, "mmap"]))
    for i, x in enumerate(datas): cx.d.call("val", i, 0, "n", drv.encv(x))
    return s, good, bad, datas


def s03_case(cx, r, i):
    s, good, bad, datas = mkcx_session(cx, r)
    d = cx.d
    d.call("reuse_new", 0, 0)
    trace = []
    for step in range(r.randint(8, 20)):
        src = r.choice(bad) if r.random() < 0.45 else r.choice(good)
        vm = r.randrange(len(s.vms)); di = r.randrange(len(datas)); f = s.vms[vm]["f"]
        what = r.choice(["exec", "exec", "exec", "reuse", "reuse", "compile", "badval"])
        trace.append((what, vm, src[:60], di))
        if what == "badval":
            R = d.call("val", 20, 0, "j", r.choice([b"{", b"{\"a\":", b"", b"[1,", b"nul"]))
            if R[0] == b"ok": cx.fail("broken document accepted", repr(trace))
            R = d.call("val", 20, 0, "j", b"{\"a\":[1,{\"b\":2}]}"); E = d.call("enc", 20)
            if R[0] != b"ok" or E[1] != b'{S1:a[I1;{S1:bI2;}]}': cx.fail("good document refused after a bad one", "%r %r" % (R, E))
            cx.ev(); cx.count("documents"); continue
        if what == "compile":
            R = drv.Result(d.call("front", "module", f, src)); R2 = d.call("compile", 60, 0, f, src)
            cx.ev(); cx.count("compiled, same context")
            if R.ok != (R2[0] == b"ok"): cx.fail("compiling depends on what happened before", "%r: %r, fresh %r; %r" % (src, R2, R, trace))
            elif not R.ok and drv.Result(R2).key() != R.key(): cx.fail("compile error depends on what happened before", "%r: %r, fresh %r; %r" % (src, drv.Result(R2), R, trace))
            cx.seen((src, f, R.ok))
            continue
        if what == "reuse":
            outer = r.choice([0, 1, 1])
            d.call("compile", 60, 0, f, src) if False else None
            R = d.call("reuse_compile", 0, 61, f, src, outer)
            cx.ev(); cx.count("compiled with the parser and compiler used before"); cx.seen(("reuse", src, f, R[0]))
            d.call("ctx_new", 7)
            F = d.call("compile", 62, 7, f, src)
            if (R[0] == b"ok") != (F[0] == b"ok") or (F[0] != b"ok" and drv.Result(R).key() != drv.Result(F).key()):
                cx.fail("a reused parser or compiler behaves differently", "%r (flags %d, handler %d): %r, fresh %r; %r" % (src, f, outer, R[:5], F[:5], trace))
            elif F[0] == b"ok":
                for x in (61, 62): d.call("module", x, "copyts", 0)
                a, b = d.call("module", 61, "norm", 16), d.call("module", 62, "norm", 16)
                if modbody(a[1]) != modbody(b[1]): cx.fail("a reused parser or compiler makes another template", "%r flags %d: %s / %s; %r" % (src, f, d.call("module", 61, "print")[1][-1500:], d.call("module", 62, "print")[1][-1500:], trace))
            d.call("ctx_free", 7)
            continue
        X = s.expect(vm, src, datas[di])
        m = s.module(vm, src)
        cx.ev(); cx.seen(("exec", vm, src, di, X.key()))
        if isinstance(m, drv.Result):
            cx.count("template refused")
            if m.key() != X.key(): cx.fail("compile error depends on what happened before", "%r: %r, fresh %r; %r" % (src, m, X, trace))
            continue
        outer = r.choice([0, 1])
        R = drv.Result(d.call("exec", vm, m, di, outer))
        cx.count("rendered" if X.ok else "errors delivered to a handler" if outer else "errors by return value")
        if R.key() != X.key() or R.ev != X.ev:
            cx.fail("result depends on what happened before" if X.ok or R.ok else "error depends on what happened before", "%r data %r vm %d (flags %d) handler %d: %r, fresh %r; %r" % (src, datas[di], vm, f, outer, R, X, trace))
            break
    d.call("ctx_free", 0)


def modbody(x):
    """a module without the hash, time stamp and address in its header"""
    return x[int(HEADER["data"]):] if HEADER else x


HEADER = {}


def learn_header(cx, r, i):
    cx.d.call("ctx_new", 9); cx.d.call("compile", 9, 9, 0, b"x")
    I = cx.d.call("module", 9, "info")
    cx.d.call("ctx_free", 9)
    return int(I[8])


def header():
    d = drv.Drv("asan")
    d.call("ctx_new", 9); d.call("compile", 9, 9, 0, b"x")
    HEADER["data"] = int(d.call("module", 9, "info")[8])
    d.close()


def s03(ck):
    ck.rule = "distinct = (operation, template, flags or VM, data, result)"
    ck.build("asan", "asand")
    header()
    ck.cases(s03_case, ck.q(700, 12000), tag="hist")
    ck.cases(s03_case, ck.q(250, 4000), variant="asand", tag="histd")


def s04_case(cx, r, i):
    s, good, bad, datas = mkcx_session(cx, r)
    d = cx.d
    # inputs the monitor can look at afterwards: partials, helpers and the data frame are values of ours
    p, h = s.vms[0]["p"], s.vms[0]["h"]
    d.call("val", 10, 0, "n", drv.encv(p)); d.call("val", 11, 0, "n", drv.encv({k: Fn(v) for k, v in h.items()})); d.call("val", 12, 0, "n", drv.encv({"k": [1, {"z": 2}], "first": "F"}))
    d.call("vm", 5, 0, 0)
    d.call("vm_set", 5, "partials", 10); d.call("vm_set", 5, "helpers", 11); 
    use_dd = r.random() < 0.5
    if use_dd: d.call("vm_set", 5, "data", 12)
    s.vms += [None] * (6 - len(s.vms)); s.vms[5] = dict(p=p, h=h, f=0, dd={"k": [1, {"z": 2}], "first": "F"} if use_dd else None)
    vmids = [k for k, v in enumerate(s.vms) if v]
    enc0 = {k: d.call("enc", k) for k in (0, 1, 2, 10, 11, 12)}
    first = {}; mod0 = {}; trace = []
    for step in range(r.randint(10, 24)):
        src = r.choice(bad[2:]) if r.random() < 0.15 else r.choice(good)
        vm, di = r.choice(vmids), r.randrange(len(datas))
        m = s.module(vm, src)
        if isinstance(m, drv.Result): continue
        if m not in mod0: mod0[m] = d.call("module", m, "norm", 16)
        v = vm
        if r.random() < 0.25: # a new VM every now and then
            V = s.vms[vm]; v = 9; d.call("vm", 9, 0, V["f"], "n", drv.encv(V["p"]), ",".join("%s:%s" % x for x in V["h"].items()), "", drv.encv(V["dd"]) if V["dd"] is not None else "")
        trace.append((vm, v, src[:80], di))
        R = drv.Result(d.call("exec", v, m, di, 1))
        if v == 9: d.call("vm_free", 9)
        cx.ev(); cx.count("renderings")
        k = (vm, src, di)
        if k in first:
            cx.count("repeated")
            if first[k] != (R.key(), R.ev): cx.fail("the same again gives something else", "%r data %r: first %r, now %r; %r" % (src, datas[di], first[k], R, trace)); break
        else: first[k] = (R.key(), R.ev); cx.seen((k, R.key()))
        for x, e in enc0.items():
            n = d.call("enc", x)
            if n != e:
                cx.fail("rendering changed its input (%s)" % {10: "partials", 11: "helpers", 12: "data frame"}.get(x, "data"), "%r: %r became %r; %r" % (src, e[1], n[1], trace)); return
        n = d.call("module", m, "norm", 16)
        if n != mod0[m]: cx.fail("rendering changed the compiled template", "%r %r" % (src, trace)); return
        cx.count("inputs compared", len(enc0) + 1)
    d.call("ctx_free", 0)


def s04(ck):
    ck.rule = "distinct = (VM, template, data, result)"
    ck.build("asan", "asand")
    ck.cases(s04_case, ck.q(700, 12000), tag="pure")
    ck.cases(s04_case, ck.q(200, 3000), variant="asand", tag="pured")
    ck.assumptions += ["the helpers of the monitor do not modify their arguments themselves"]


# ---------------------------------------------------------------- S05
def resources(d):
    """what the process holds: heap bytes, descriptors, mappings that are not the heap's"""
    pid = d.p.pid
    maps = sum(1 for l in open("/proc/%d/maps" % pid) if "/dev/zero" in l or "/tmp/" in l or "shm" in l)
    return int(d.call("mem")[0]), len(os.listdir("/proc/%d/fd" % pid)), maps


def s05_once(cx, r, i):
    """a whole life: context, parser, compiler, partials, data, cache, VM, rendering, end"""
    src, ps, data, h = scenario(r, 2, 4)
    h = dict(h, **EXTRA_HELPERS)
    x = r.random()
    if x < 0.3: src = mutate(r, src)
    elif x < 0.45: src = r.choice(BAD_SYNTAX + BAD_COMPILE + BAD_RUN); ps = dict(ps, **MORE_PARTIALS); h["hThrow"] = "throw"
    df = r.choice("nnjwy")
    if df != "n":
        data = plain_data(data)
        data = (json.dumps(data) if df != "y" or r.random() < 0.3 else yaml_of(data)).encode()
        if r.random() < 0.3: data = mutate(r, data, n=1)
        elif r.random() < 0.1: data += r.choice([b" x", b"]", b"{}", b"\n}", b"\n--- [", b" 1", b"\n&a", b"\n...\n: :"])
        if df == "y": data = data.replace(b"\0", b"")
    extra = []
    if r.random() < 0.3: extra += cache_choice(cx, r); cx.count("lives with a %s cache" % extra[1])
    if r.random() < 0.2: extra += ["runs", "3"]
    if r.random() < 0.3: extra += ["fk", r.choice(["lex", "ast", "astsrc", "opcodes", "module", "parse", "compile"])]
    rq = req(src, ps, data, h, flagset(r), df, extra=extra)
    if r.random() < 0.1:
        k = rq.index("p"); rq[k + 1] = cx.loader_dir + "\0.hbs"; rq[rq.index("pf") + 1] = "l"; rq[1] = rq[1] + b"{{> a}}{{> b}}"
    d = cx.d
    for _ in range(2): R = d.call("render", *rq)
    m0 = resources(d)
    for _ in range(3): d.call("render", *rq)
    m1 = resources(d)
    cx.ev(); cx.seen((rq[1], df, tuple(extra), R[0])); cx.count("lives, successful" if R[0] == b"ok" else "lives, in error")
    if m1 != m0: cx.fail("resources remain after the end of a context", "heap bytes, descriptors, mappings %r, three lives later %r: %r" % (m0, m1, rq[:12]))


def s05_session(cx, r, i):
    """a long life with errors; the second time it must leave nothing behind that was not there after the first"""
    d = cx.d
    state = r.getstate()
    m = []
    for turn in range(3):
        r.setstate(state)
        s, good, bad, datas = mkcx_session(cx, r)
        d.call("reuse_new", 0, 0)
        for step in range(12):
            src = r.choice(bad) if r.random() < 0.4 else r.choice(good)
            vm, di = r.randrange(len(s.vms)), r.randrange(len(datas))
            if r.random() < 0.3: d.call("reuse_compile", 0, 61, s.vms[vm]["f"], src, r.choice([0, 1]))
            else:
                mm = s.module(vm, src)
                if not isinstance(mm, drv.Result): d.call("exec", vm, mm, di, r.choice([0, 1]))
        d.call("ctx_free", 0)
        m.append(resources(d))
    cx.ev(); cx.count("sessions"); cx.seen(tuple(good) + tuple(bad))
    if m[1] != m[2]: cx.fail("resources remain after the end of a session", "heap bytes, descriptors, mappings %r then %r" % (m[1], m[2]))


def s05_growth(cx, r, i):
    d = cx.d
    s = Session(cx, r)
    src, parts = s.template(r.choice([1, 2, 3]), r.choice([2, 5]))
    data = tgen.rootdata(r, fn=r.random() < 0.3)
    s.add_vm(parts, tgen.helper_map(s.base), r.choice([0, 0, 0, flagset(r, 0)]), cache=r.choice([None, None, "simple", "mmap"]))
    d.call("val", 0, 0, "n", drv.encv(data))
    m = s.module(0, src)
    if not isinstance(m, drv.Result):
        R = d.call("exec_rep", 0, m, 0, 40)
        if R[0] == b"ok":
            q = [tuple(int(x) for x in e.split(b":")) for e in R[1].split(b",") if e]
            cx.ev(); cx.count("renderings", len(q)); cx.seen((src, q[-1]))
            if len(set(q[10:])) > 1: cx.fail("memory grows with every rendering", "%r data %r partials %r flags %d: blocks:bytes after each rendering %s" % (src, data, parts, s.vms[0]["f"], [q[0], q[1], q[10], q[20], q[39]]))
    d.call("ctx_free", 0)


def s05(ck):
    ck.rule = "distinct = (template, data format, options, result) of a life; (template, memory) of a repeated rendering"
    ck.build("asan")
    d = loader_tree()
    try:
        ck.cases(with_loader(s05_once, d), ck.q(2500, 40000), tag="life")
        ck.cases(s05_session, ck.q(150, 2500), tag="sess")
        ck.cases(s05_growth, ck.q(2000, 30000), tag="grow")
    finally: shutil.rmtree(d, ignore_errors=True)
    ck.assumptions += ["the text of an error belongs to the context and lives as long as it"]


TABLE = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05}
