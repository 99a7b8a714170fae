"""S06: how deeply everything can be nested, and what happens beyond."""
import json, sys
import drv
from drv import Fn, encv

sys.setrecursionlimit(20000)
H = {"hId": "id", "hCat": "cat", "hBlk": "blk", "hCtx": "ctx", "hHash": "hash", "hList": "list", "hThrow": "throw"}
# what says that a limit was exceeded
LIMIT = {7: "Stack overflow", 4: "memory exhausted"}


def wrapd(n, inner, key="a"):
    """data nested n deep"""
    for _ in range(n): inner = {key: inner}
    return inner


def lists(n, inner):
    for _ in range(n): inner = [inner]
    return inner


def around(o, c, inner="x"):
    def f(n): return dict(t=o * n + inner + c * n, d={"a": {"b": 1}, "t": True, "l": [1]}, out=inner)
    return f


def k_each(n): return dict(t="{{#each a}}" * n + "{{this}}" + "{{/each}}" * n, d={"a": 1}, out="") if n > 1 else dict(t="{{#each a}}{{this}}{{/each}}", d={"a": [1]}, out="1")
def k_each_this(n): return dict(t="{{#each this}}" * n + "{{this}}" + "{{/each}}" * n, d=lists(n, "v"), out="v")
def k_with(n): return dict(t="{{#with a}}" * n + "{{v}}" + "{{/with}}" * n, d=wrapd(n, {"v": "v"}), out="v")
def k_section(n): return dict(t="{{#a}}" * n + "{{v}}" + "{{/a}}" * n, d=wrapd(n, {"v": "v"}), out="v")
def k_section_list(n): return dict(t="{{#a}}" * n + "{{v}}" + "{{/a}}" * n, d=wrapd_list(n, {"v": "v"}), out="v")
def wrapd_list(n, inner):
    for _ in range(n): inner = {"a": [inner]}
    return inner
def k_mixed(n):
    os, cs = [], []
    for i in range(n):
        o, c = [("{{#if t}}", "{{/if}}"), ("{{^q}}", "{{/q}}"), ("{{#unless q}}", "{{/unless}}"), ("{{#t}}", "{{/t}}"), ("{{#if q}}{{else}}", "{{/if}}")][i % 5]
        os.append(o); cs.insert(0, c)
    return dict(t="".join(os) + "x" + "".join(cs), d={"t": True}, out="x")
def k_elseif(n): return dict(t="{{#if q}}n" + "{{else if q}}n" * n + "{{else}}x{{/if}}", d={}, out="x")
def k_elsewith(n): return dict(t="{{#if q}}n" + "{{else with q}}n" * n + "{{else}}x{{/if}}", d={}, out="x")
def k_helperblock(n): return dict(t="{{#hBlk}}" * n + "x" + "{{/hBlk}}" * n, d={}, out="<" * n + "x" + ">" * n)
def k_subexpr(n): return dict(t="{{hId " + "(hId " * n + "'v'" + ")" * n + "}}", d={}, out="v")
def k_subexpr_hash(n): return dict(t="{{hHash.a}}{{#with " + "(hHash a=" * n + "'v'" + ")" * n + "}}{{a" + ".a" * (n - 1) + "}}{{/with}}", d={}, out="v")
def k_subexpr_wide(n): return dict(t="{{hCat " + "(hCat 'a' " * n + "'v'" + ")" * n + "}}", d={}, out="a" * n + "v")
def k_params(n): return dict(t="{{hCat" + " 'p'" * n + "}}", d={}, out="p" * n)
def k_params_sub(n): return dict(t="{{hCat" + " (hId 'p')" * n + "}}", d={}, out="p" * n)
def k_hash(n): return dict(t="{{#with (hHash" + "".join(" k%d='%d'" % (i, i % 10) for i in range(n)) + ")}}" + "{{k0}}{{k%d}}" % (n - 1) + "{{/with}}", d={}, out="0%d" % ((n - 1) % 10))
def k_path(n): return dict(t="{{" + ".".join(["a"] * n) + "}}", d=wrapd(n, "v"), out="v")
def k_parent(n): return dict(t="{{#with a}}" * n + "{{" + "../" * n + "r}}" + "{{/with}}" * n, d=dict(wrapd(n, {"v": "v"}), r="root"), out="root")
def k_parent_over(n): return dict(t="{{" + "../" * n + "r}}", d={"r": "root"}, out="")
def k_compat(n): return dict(t="{{#a}}" * n + "{{r}}" + "{{/a}}" * n, d=dict(wrapd(n, {"v": "v"}), r="root"), out="root", f=1)
def k_data(n): return dict(t="{{#each a}}" * n + "{{" + "@" + "../" * (n - 1) + "key}}" + "{{/each}}" * n, d={"a": {"top": wrapd(2 * (n - 1), {"v": 1})}}, out="top")
def k_bparams(n):
    return dict(t="".join("{{#with a as |p%d|}}" % i for i in range(n)) + "{{p0.r}}{{p%d.v}}" % (n - 1) + "{{/with}}" * n, d={"a": dict(wrapd(n - 1, {"v": "v"}), r="r")} if n > 1 else {"a": {"r": "r", "v": "v"}}, out="rv")
def k_pblock(n): return dict(t="{{#> p}}" * n + "x" + "{{/p}}" * n, p={"p": "({{> @partial-block}})"}, d={}, out="(" * n + "x" + ")" * n)
def k_pblock_missing(n): return dict(t="{{#> q}}" * n + "x" + "{{/q}}" * n, p={}, d={}, out="x")
def k_partial_chain(n):
    p = {"p%d" % i: "%d{{> p%d}}" % (i % 10, i + 1) for i in range(n)}
    p["p%d" % n] = "x"
    return dict(t="{{> p0}}", p=p, d={}, out="".join(str(i % 10) for i in range(n)) + "x")
def k_partial_rec(n): return dict(t="{{> p}}", p={"p": "{{#if a}}[{{> p a}}]{{/if}}"}, d=wrapd(n, {"a": None}), out="[" * n + "]" * n)
def k_partial_rec_dyn(n): return dict(t="{{> p}}", p={"p": "{{#if a}}[{{> (hId 'p') a}}]{{/if}}"}, d=wrapd(n, {"a": None}), out="[" * n + "]" * n)
def k_partial_each(n): return dict(t="{{> p}}", p={"p": "{{#each c}}<{{> p}}>{{/each}}"}, d=wrapd_c(n), out="<" * n + ">" * n)
def wrapd_c(n):
    d = {}
    for _ in range(n): d = {"c": [d]}
    return d
def k_partial_two(n): return dict(t="{{> p}}", p={"p": "{{#if a}}({{> q a}}){{/if}}", "q": "{{#with a}}{{> p}}{{/with}}{{^a}}e{{/a}}"}, d=wrapd(2 * n, {"a": None}), out="(" * n + ")" * n)
def k_indent(n): return dict(t="{{> p}}", p={"p": "x\n{{#if a}}\n {{> p a}}\n{{/if}}\n"}, d=wrapd(n, {"a": None}), out="".join(" " * i + "x\n" for i in range(n + 1)))
def k_layouts(n):
    p = {"l%d" % i: "%s{{#> l%d}}{{> @partial-block}}{{/l%d}}" % (chr(97 + i % 26), i + 1, i + 1) for i in range(n)}
    p["l%d" % n] = "[{{> @partial-block}}]"
    return dict(t="{{#> l0}}x{{/l0}}", p=p, d={}, out="".join(chr(97 + i % 26) for i in range(n)) + "[x]")
def k_lambda_text(n): return dict(t="{{#l}}x{{/l}}", d={"l": Fn("lamtext")}, out=None)
def k_values(n): return dict(t="{{a}}", d={"a": lists(n, "v")}, out="v")
def k_values_maps(n): return dict(t="{{v}}", d={"a": wrapd(n, 1), "v": "v"}, out="v")
def k_json(n): return dict(t="{{v}}{{a" + ".[0]" * min(n, 30) + "}}", d=("{\"a\":" + "[" * n + "\"v\"" + "]" * n + ",\"v\":1}").encode(), df="j", out="1v")
def k_json_maps(n): return dict(t="{{v}}", d=("{\"a\":" + "{\"a\":" * n + "\"v\"" + "}" * n + ",\"v\":1}").encode(), df="j", out="1")
def k_yaml(n): return dict(t="{{v}}{{a}}", d=("a: " + "[" * n + "v" + "]" * n + "\nv: 1\n").encode(), df="y", out="1v")
def k_yaml_block(n): return dict(t="{{v}}", d=("".join(" " * i + "a:\n" for i in range(n)) + " " * n + "b\nv: 1\n").encode(), df="y", out="1")
def k_rawblocks(n): return dict(t="{{{{hBlk}}}} {{{{/hBlk}}}}" * n, d={}, out="< >" * n)
def k_tilde(n): return dict(t="{{~#if t~}} " * n + "x" + " {{~/if~}}" * n, d={"t": True}, out="x")
def k_siblings(n): return dict(t="{{#if t}}x{{/if}}{{#each l}}{{this}}{{else}}{{/each}}{{hCat 'a' (hId 'b')}}" * n, d={"t": True, "l": [1]}, out="x1ab" * n)
def k_sibling_partials(n): return dict(t="{{> p}}{{#> q}}y{{/q}}" * n, p={"p": "x"}, d={}, out="xy" * n)
def k_many_items(n): return dict(t="{{#each l}}{{#with this}}{{v}}{{/with}}{{/each}}", d={"l": [{"v": i % 10} for i in range(n)]}, out="".join(str(i % 10) for i in range(n)))
def k_many_partials(n): return dict(t="{{#each l}}{{> p}}{{#> p}}{{/p}}{{/each}}", p={"p": "{{v}}"}, d={"l": [{"v": i % 10} for i in range(n)]}, out="".join(str(i % 10) * 2 for i in range(n)))
def k_bparams_loop(n): return dict(t="{{#each l as |x i|}}{{#each x as |y|}}{{y}}{{i}}{{/each}}{{/each}}", d={"l": [[1]] * n}, out="".join("1%d" % i for i in range(n)))

# name: (generator, least depth that must work, greatest depth tried)
KINDS = {
    "if blocks": (around("{{#if t}}", "{{/if}}"), 30, 400),
    "inverse sections": (around("{{^q}}", "{{/q}}"), 30, 400),
    "each": (k_each_this, 29, 400), "with": (k_with, 29, 400), "sections": (k_section, 29, 400), "sections over lists": (k_section_list, 29, 400),
    "mixed blocks": (k_mixed, 30, 400), "else if": (k_elseif, 29, 400), "else with": (k_elsewith, 29, 400), "helper blocks": (k_helperblock, 30, 400),
    "subexpressions": (k_subexpr, 60, 400), "subexpressions in hashes": (k_subexpr_hash, 29, 400), "subexpressions after others": (k_subexpr_wide, 60, 400),
    "parameters": (k_params, 90, 400), "subexpressions as parameters": (k_params_sub, 90, 400), "hash": (k_hash, 90, 400),
    "path": (k_path, 900, 900), "parent": (k_parent, 29, 400), "parent beyond the root": (k_parent_over, 900, 900), "compat lookup": (k_compat, 29, 400),
    "data frames": (k_data, 29, 400), "block parameters": (k_bparams, 29, 400),
    "partial blocks": (k_pblock, 30, 400), "failover partial blocks": (k_pblock_missing, 30, 400), "chain of partials": (k_partial_chain, 500, 900),
    "recursive partial": (k_partial_rec, 90, 900), "recursive dynamic partial": (k_partial_rec_dyn, 90, 900), "recursive partial in each": (k_partial_each, 90, 900), "two partials including each other": (k_partial_two, 45, 450),
    "indented recursive partial": (k_indent, 90, 300), "layouts": (k_layouts, 45, 400),
    "lists in lists": (k_values, 900, 900), "maps in maps": (k_values_maps, 900, 900), "JSON lists": (k_json, 30, 900), "JSON objects": (k_json_maps, 30, 900),
    "YAML lists": (k_yaml, 990, 3000), "YAML mappings": (k_yaml_block, 990, 1500),
    "raw blocks": (k_rawblocks, 300, 300), "whitespace control": (k_tilde, 30, 400), "siblings": (k_siblings, 300, 300), "partials side by side": (k_sibling_partials, 300, 300),
    "many items": (k_many_items, 3000, 3000), "partials in a long loop": (k_many_partials, 2000, 2000), "block parameters in a long loop": (k_bparams_loop, 2000, 2000),
}
NAMES = list(KINDS)


def rq(k, depth, extra=()):
    s = KINDS[k][0](depth)
    df = s.get("df", "n")
    a = ["t", s["t"], "d", s["d"] if isinstance(s["d"], bytes) else encv(s["d"]), "df", df, "p", encv(s.get("p", {})), "pf", "n", "h", ",".join("%s:%s" % kv for kv in H.items())]
    if s.get("f"): a += ["f", str(s["f"])]
    return a + list(extra), s["out"]


def limit_error(R): return R[1] == b"7" or (R[1] == b"4" and b"memory exhausted" in R[2]) or (R[1] == b"1" and b"too deep" in R[2])


def ramp(cx, r, i):
    """one kind of nesting, deeper and deeper"""
    k = NAMES[i % len(NAMES)]
    gen, floor, top = KINDS[k]
    full = i < len(NAMES)
    if full:
        ds = list(range(1, min(top, 135) + 1)) if top <= 900 else [1, 2, 3, 5, 31, 32, 33, 64, 95, 96, 97, 128]
        ds += [n for n in (200, 255, 256, 257, 300, 400, 450, 500, 508, 509, 510, 511, 512, 513, 514, 600, 900, 990, 999, 1000, 1001, 1500, 2000, 3000) if n <= top]
    else: ds = sorted({r.randint(1, top) for _ in range(10)} | {r.randint(1, min(top, 130)) for _ in range(20)})
    extra = [] if full else r.choice([[], ["c", "simple"], ["runs", "2"], ["outer", "1"], ["fk", "module"], ["c", "mmap"]])
    if extra[:1] == ["fk"] or extra[:1] == ["outer"]: extra = []
    first = None
    for n in ds:
        a, out = rq(k, n, extra)
        R = cx.d.call("render", *a)
        cx.ev()
        if R[0] == b"ok":
            cx.seen((k, n, tuple(extra))); cx.count("nested, rendered")
            if R[1] != out.encode(): cx.fail("wrong output of nested " + k, "%s nested %d deep, %r: %r expected %r" % (k, n, extra, R[1][:200], out[:200]))
            if first: cx.fail("limit not monotone: " + k, "%s nested %d deep fails, but %d deep works" % (k, first, n))
        else:
            cx.count("nested beyond a limit")
            if first is None: first = n; cx.sample("%s: error at %d: %s" % (k, n, R[2].decode("latin1")))
            if n <= floor: cx.fail("limit too low: " + k, "%s nested %d deep, %r: %r" % (k, n, extra, R[:4]))
            if not limit_error(R): cx.fail("unclear error for nested " + k, "%s nested %d deep, %r: %r" % (k, n, extra, R[:4]))


def used_up(cx, r, i):
    """what failed on a limit, or was rendered right up to it, leaves the VM as it was"""
    d = cx.d
    k = r.choice([x for x in NAMES if "JSON" not in x and "YAML" not in x and KINDS[x][2] <= 900])
    gen, floor, top = KINDS[k]
    f = gen(2).get("f", 0)
    d.call("ctx_new", 0)
    try:
        deep = r.choice([min(top, floor), min(top, floor), min(120, top), top])
        steps = [deep if r.random() < 0.6 else r.randint(1, min(top, floor)) for _ in range(8)] + [min(top, floor)]
        one = gen(deep)
        for j, n in enumerate(steps):
            s = gen(n)
            if d.call("vm", j % 2, 0, f, "n", encv(s.get("p", {})), ",".join("%s:%s" % kv for kv in H.items()), "")[0] != b"ok": return
            d.call("val", j, 0, "n", encv(s["d"]))
            R = d.call("compile", j, 0, f, s["t"])
            if R[0] == b"ok":
                for _ in range(r.choice([1, 2, 3])):
                    R = d.call("exec", j % 2, j, j, r.choice([0, 1]))
                    cx.ev()
                    if R[0] == b"ok":
                        cx.count("renderings after others"); cx.seen((k, n, j))
                        if R[1] != s["out"].encode(): cx.fail("wrong output of nested " + k, "%s nested %d deep after %r: %r expected %r" % (k, n, steps[:j], R[1][:200], s["out"][:200]))
                    else: break
            if R[0] != b"ok":
                cx.count("limits hit between others")
                if n <= floor: cx.fail("limit reached earlier than before: " + k, "%s nested %d deep after %r: %r" % (k, n, steps[:j], R[:4]))
                elif not limit_error(R): cx.fail("unclear error for nested " + k, "%s nested %d deep: %r" % (k, n, R[:4]))
    finally: d.call("ctx_free", 0)


WRAPS = [("{{#if true}}", "{{/if}}", "", "", 1), ("{{#unless false}}", "{{/unless}}", "", "", 1), ("{{^q}}", "{{/q}}", "", "", 1), ("{{#with @root.o}}", "{{/with}}", "", "", 1), ("{{#each @root.l}}", "{{/each}}", "", "", 1),
         ("{{#each @root.l as |x y|}}{{y}}", "{{x.z}}{{/each}}", "0", "Z", 1), ("{{#hBlk}}", "{{/hBlk}}", "<", ">", 1), ("{{#if false}}{{else if true}}", "{{/if}}", "", "", 2), ("{{#if false}}{{else}}", "{{/if}}", "", "", 1), ("{{#with @root.o as |p|}}", "{{p.z}}{{/with}}", "", "Z", 1),
         ("{{#> box}}", "{{/box}}", "(", ")", 1), ("{{#> nobox}}", "{{/nobox}}", "", "", 1), ("{{#hCtx @root.o}}", "{{z}}{{/hCtx}}", "", "Z", 1), ("{{#@root.o}}", "{{z}}{{/@root.o}}", "", "Z", 1), ("{{#@root.l}}", "{{#if z}}{{z}}{{/if}}{{/@root.l}}", "", "Z", 1), ("{{~#if true~}}", "{{~/if~}}", "", "", 1), ("{{#if (hId (hId true))}}", "{{/if}}", "", "", 1)]
PARTWRAPS = [("{{> %s}}", "", ""), ("[{{> %s}}]", "[", "]"), ("{{> (hId '%s')}}", "", ""), ("{{> %s @root.o}}{{z}}", "", None), ("{{#> %s}}no{{/%s}}", "", "")]


def combos(cx, r, i):
    """everything nested in everything"""
    depth = r.choice([r.randint(2, 28), r.randint(2, 28), r.randint(20, 90), r.randint(60, 300), r.randint(300, 600)])
    pw = r.choice([0, 0.05, 0.2, 0.5])
    root = {"o": {"z": "Z"}, "l": [{"z": "Z"}]}
    # from the inside out
    parts = {"box": "({{> @partial-block}})"}
    src, out, n, lex, maxlex, total = "x", "x", 0, 0, 0, 0
    use = [r.choice(WRAPS) for _ in range(r.choice([1, 2, 4, len(WRAPS)]))]
    kinds = []
    while total < depth:
        if r.random() < pw:
            name = "n%d" % n; n += 1
            parts[name] = src
            o, a, b = r.choice(PARTWRAPS)
            if b is None: a, b, o = "", "", "{{> %s @root.o}}"
            src = o.replace("%s", name); out = a + out + b
            lex = 0 if "#" not in o else 1; total += 1; kinds.append(o)
        else:
            o, c, a, b, w = r.choice(use)
            if lex + w > 28: # in a file of its own
                name = "n%d" % n; n += 1; parts[name] = src; src = "{{> %s}}" % name; lex = 0; total += 1; kinds.append(">")
            src = o + src + c; out = a + out + b; lex += w; total += w; kinds.append(o)
        maxlex = max(maxlex, lex)
    rep = r.choice([1, 1, 1, 2, 3])
    extra = r.choice([[], [], ["c", "simple"], ["runs", "2"], ["c", "mmap", "runs", "2"]])
    a = ["t", src * rep, "d", encv(root), "df", "n", "p", encv(parts), "pf", "n", "h", ",".join("%s:%s" % kv for kv in H.items())] + extra
    if r.random() < 0.2: a += ["f", str(r.choice([1, 256, 4096]))]
    R = cx.d.call("render", *a)
    cx.ev(); cx.seen((tuple(kinds), rep, R[0]))
    if R[0] == b"ok":
        cx.count("combinations rendered")
        if R[1] != (out * rep).encode(): cx.fail("wrong output of combined nesting", "depth %d x%d %r: %r parts %r gives %r, expected %r" % (total, rep, extra, src, parts, R[1][:300], out[:300]))
    else:
        cx.count("combinations beyond a limit")
        if total <= 28: cx.fail("limit too low: combination", "depth %d x%d %r: %r parts %r gives %r" % (total, rep, extra, src, parts, R[:4]))
        elif not limit_error(R): cx.fail("unclear error for combined nesting", "depth %d: %r parts %r gives %r" % (total, src, parts, R[:4]))


ENDLESS = [
    ("{{> p}}", {"p": "{{> p}}"}, {}, 0), ("{{> p}}", {"p": "x{{> q}}", "q": "y\n  {{> p}}\n"}, {}, 0), ("{{> p this}}", {"p": "{{#if true}}{{> (hId 'p') this}}{{/if}}"}, {}, 0), ("{{#> p}}{{> p}}{{/p}}", {"p": "{{#> p}}{{> @partial-block}}{{/p}}"}, {}, 0),
    ("{{#> p}}{{/p}}", {"p": "{{#> q}}{{> @partial-block}}{{/q}}", "q": "{{#> p}}x{{> @partial-block}}{{/p}}"}, {}, 0), 
    ("{{> p}}", {"p": "{{#each l}}{{> p @root}}{{/each}}"}, {"l": [1]}, 0), ("{{> p}}", {"p": "{{#with this}}{{> p a=this}}{{/with}}"}, {"l": [1]}, 0), ("{{> p}}", {"p": "{{#l}}{{> p}}{{/l}}"}, {"l": Fn("lamtext")}, 4096), ("{{#l}}{{> p}}{{/l}}", {"p": "{{#l}}{{#l}}{{> p}}{{/l}}{{/l}}"}, {"l": Fn("lamtext")}, 4096),
    ("{{> p}}", {"p": "{{#hBlk}}{{> p}}{{/hBlk}}"}, {}, 0), ("{{> p}}", {"p": "{{hCat (hId 1) 2}}{{> p x=(hHash a=1)}}"}, {}, 0), ("{{> p}}", {"p": "{{#each l as |a b|}}{{> p a}}{{/each}}{{> p}}"}, {"l": [1]}, 1), ("{{#each l}}{{> p}}{{/each}}", {"p": "{{> @partial-block}}{{> q}}", "q": "{{#> p}}{{> q}}{{/p}}"}, {"l": [1, 2]}, 1),
]


def endless(cx, r, i):
    """recursion without an end ends in an error, again and again, and leaves everything usable"""
    t, p, data, f = ENDLESS[i % len(ENDLESS)]
    d = cx.d
    d.call("ctx_new", 0)
    try:
        cache = r.choice(["", "simple", "mmap"])
        if cache: d.call("cache_new", 0, 0, cache, "64" if cache == "simple" else "8388608", "32" if cache == "simple" else "64")
        d.call("vm", 0, 0, f, "n", encv(p), ",".join("%s:%s" % kv for kv in H.items()), "0" if cache else "")
        d.call("val", 0, 0, "n", encv(data)); d.call("val", 1, 0, "n", encv({"v": "V"}))
        d.call("compile", 0, 0, f, t); d.call("compile", 1, 0, f, "{{#with this}}{{v}}{{/with}}")
        for turn in range(r.choice([1, 2, 3])):
            R = d.call("exec", 0, 0, 0, r.choice([0, 1]))
            cx.ev(); cx.seen((t, cache, turn)); cx.count("endless recursions ended")
            if R[0] == b"ok" or not limit_error(R): cx.fail("endless recursion", "%r %r flags %d: %r" % (t, p, f, R[:4]))
            R = d.call("exec", 0, 1, 1, r.choice([0, 1]))
            if R[:2] != [b"ok", b"V"]: cx.fail("not usable after endless recursion", "%r %r flags %d: then %r" % (t, p, f, R[:4]))
    finally: d.call("ctx_free", 0)


def s06(ck):
    ck.rule = "distinct = (kind of nesting, depth, cache) rendered correctly; combined nestings; endless recursions"
    ck.build("asan")
    ck.cases(ramp, ck.q(len(NAMES), len(NAMES) * 40), tag="ramp", timeout=120)
    ck.cases(used_up, ck.q(300, 8000), tag="used", timeout=120)
    ck.cases(combos, ck.q(1500, 40000), tag="comb", timeout=120)
    ck.cases(endless, ck.q(60, 2000), tag="endless", timeout=120)
    ck.assumptions += ["the least depths that must work are those of the current limits less one or two", "main thread with the usual 8 MB stack, AddressSanitizer's larger stack frames included"]


TABLE = {"S06": s06}
