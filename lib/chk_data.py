"""D01-D03: containers, strings, values against reference models, under ASan+UBSan."""
import containers as C


def d01(ck):
    ck.rule = "distinct = (operation sequence, results) of a map script"
    ck.build("asan", "asand")
    ck.cases(C.case_map, ck.q(4000, 60000), tag="map")
    ck.cases(C.case_map, ck.q(1000, 20000), variant="asand", tag="mapd")
    ck.cases(C.case_walk, ck.q(4000, 60000), tag="walk")
    ck.cases(C.case_walk, ck.q(1000, 20000), variant="asand", tag="walkd")


def d02(ck):
    ck.rule = "distinct = (operation, sharing, operands)"
    ck.build("asan", "asand")
    ck.cases(C.case_string, ck.q(40000, 600000), tag="str")
    ck.cases(C.case_string, ck.q(5000, 60000), variant="asand", tag="strd")



# ------------------------------------------------------------------ values (one model of eight holders)
def vhex(b): return b.hex() or "-"


def venc(v):
    """what the driver prints for a model value"""
    if v == "missing": return b"0"
    k = v[0]
    if k == "N": return b"N"
    if k in "TF": return k.encode()
    if k == "I": return b"I%d;" % v[1]
    if k == "D": return b"D%s;" % (b"%.17g" % v[1])
    if k == "S": return b"%s%d:%s" % (b"s" if v[2] else b"S", len(v[1]), v[1])
    if k == "L": return b"[" + b"".join(venc(x) for x in v[1]) + b"]"
    return b"{" + b"".join(b"S%d:%s%s" % (len(n), n, venc(x)) for n, x in v[1]) + b"}"


def vjson(v):
    import json
    k = v[0]
    if k == "N": return "null"
    if k in "TF": return "true" if k == "T" else "false"
    if k == "I": return str(v[1])
    if k == "D": return repr(v[1])
    if k == "S": return json.dumps(v[1].decode())
    if k == "L": return "[" + ", ".join(map(vjson, v[1])) + "]"
    return "{" + ", ".join(json.dumps(n.decode()) + ": " + vjson(x) for n, x in v[1]) + "}"


VSTR = [b"", b"0", b"1", b"a", b"a&b<c>\"'`d", b"00", b"0 ", b" ", b"-0", b"false", b"x" * 300, b"\xff\xfe", b"a\0b", b"0\0x", b"\0", b"\xc3\xa9", b"line\nbreak", b"%s%n", b"&amp;"]
VKEY = [b"a", b"b", b"", b"0", b"length", b"a\0", b"a\0b", b"k" * 100, b"\xff", b"this", b"A"]
VNUM = [0, 1, -1, 2, 10, 42, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63]
VFLT = [0.0, -0.0, 1.5, -2.25, 1e20, 1e-7, 123456.789, 1e300, 5e-324, 0.1, 3.0, 100000.0, 1e6, float("inf")]


def vrand(r, depth=2, json=False):
    x = r.random()
    if depth and x < 0.2: return ("L", tuple(vrand(r, depth - 1, json) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 20]))))
    if depth and x < 0.4:
        ks = dict.fromkeys(r.choice(VKEY) for _ in range(r.choice([0, 1, 2, 4, 8])))
        if json: ks = [k for k in ks if b"\0" not in k and b"\xff" not in k]
        return ("M", tuple((k, vrand(r, depth - 1, json)) for k in ks))
    if x < 0.55:
        t = r.choice(VSTR)
        if json and (b"\xff" in t): t = b"j"
        return ("S", t, not json and r.random() < 0.2)
    if x < 0.7: return ("I", r.choice(VNUM))
    if x < 0.8: return ("D", r.choice(VFLT[:-1] if json else VFLT))
    return (r.choice("NTF"),)


def vtrue(v):
    k = v[0]
    return {"N": False, "T": True, "F": False}[k] if k in "NTF" else v[1] != 0 if k in "ID" else v[1] not in (b"", b"0") if k == "S" else len(v[1]) > 0


VTYPE = {"N": 0, "T": 1, "F": 2, "I": 3, "D": 4, "S": 5, "L": 6, "M": 7}


def fmtg(x): return (b"%g" % x)


def vtext(v, escape):
    k = v[0]
    if k == "T": return b"true"
    if k == "F": return b"false"
    if k == "I": return b"%d" % v[1]
    if k == "D": return fmtg(v[1])
    if k == "S": return C.esc(v[1]) if escape and not v[2] else v[1]
    if k == "L": return b",".join(vtext(x, escape) for x in v[1])
    return b""


def vdump(v, d=0):
    k = v[0]; p, p2 = b" " * (4 * d), b" " * (4 * d + 4)
    if k == "N": return b"NULL"
    if k in "TF": return b"boolean(true)" if k == "T" else b"boolean(false)"
    if k == "I": return b"integer(%d)" % v[1]
    if k == "D": return b"float(%s)" % fmtg(v[1])
    if k == "S": return b"string(%s)" % v[1]
    if k == "L": return b"[" + (b"\n" + b"".join(p2 + b"%d => %s\n" % (i, vdump(x, d + 1)) for i, x in enumerate(v[1])) + p if v[1] else b"") + b"]"
    return b"{" + (b"\n" + b"".join(p2 + n + b" => " + vdump(x, d + 1) + b"\n" for n, x in v[1]) + p if v[1] else b"") + b"}"


def vhasnul(v): return b"\0" in venc(v)


def vsize(v): return 1 + (sum(vsize(x) for x in v[1]) if v[0] == "L" else sum(vsize(x) for _, x in v[1]) if v[0] == "M" else 0)


def vdepth(v): return 1 + max([0] + ([vdepth(x) for x in v[1]] if v[0] == "L" else [vdepth(x) for _, x in v[1]] if v[0] == "M" else []))


def value_script(r, n):
    S = [("N",)] * 8; lazy = [False] * 8
    lines, exp = [], []
    def add(l, e): lines.append(l); exp.append(e)
    for _ in range(n):
        i = r.randrange(8) if r.random() < 0.5 else r.randrange(3); j = r.randrange(8) if r.random() < 0.5 else r.randrange(3); v = S[i]; k = v[0]
        op = r.choice(["set", "set", "str", "flag", "cp", "cp", "null", "push", "push", "push", "aset", "aset", "upd", "upd", "upd", "find", "get", "take", "take", "enc", "enc", "count", "bool", "kind", "tostr", "expr", "expr", "eq", "dump", "json", "conv", "el", "el"])
        h = lambda b: vhex(b)
        if op == "set":
            v = vrand(r)
            while len(venc(v)) > 4000: v = vrand(r)
            if r.random() < 0.04 and vsize(v) < 200:
                for _ in range(r.choice([15, 28, 29, 30, 31, 32, 33, 50, 64])): v = ("L", (v,)) if r.random() < 0.6 else ("M", ((b"k", v),))
            S[i] = v; lazy[i] = False; add("set %d %s" % (i, h(venc(v))), b".")
        elif op == "str":
            t = r.choice(VSTR); S[i] = ("S", t, False); lazy[i] = False; add("str %d %s" % (i, h(t)), b".")
        elif op == "flag" and k == "S": S[i] = ("S", v[1], True); add("flag %d" % i, b".")
        elif op == "cp": S[i] = S[j]; lazy[i] = lazy[j]; add("cp %d %d" % (i, j), b".")
        elif op == "null": S[i] = ("N",); lazy[i] = False; add("null %d" % i, b".")
        elif op == "push" and k == "L" and not lazy[i] and not lazy[j] and vsize(v) + vsize(S[j]) < 1500 and vdepth(S[j]) < 60: S[i] = ("L", v[1] + (S[j],)); add("push %d %d" % (i, j), b".")
        elif op == "aset" and k == "L" and not lazy[i] and not lazy[j] and vsize(v) + vsize(S[j]) < 1500 and vdepth(S[j]) < 60:
            x = r.choice([0, len(v[1]) - 1, len(v[1]), len(v[1]) + 1, r.randint(0, 8), -1]); 
            if 0 <= x <= len(v[1]): S[i] = ("L", v[1][:x] + (S[j],) + v[1][x + 1:]); add("aset %d %d %d" % (i, x, j), b".")
            else: add("aset %d %d %d" % (i, x, j), b"E:7")
        elif op == "upd" and k == "M" and not lazy[i] and not lazy[j] and vsize(v) + vsize(S[j]) < 1500 and vdepth(S[j]) < 60:
            n_ = r.choice(VKEY) if r.random() < 0.8 or not v[1] else r.choice(v[1])[0]
            S[i] = ("M", tuple((a, S[j] if a == n_ else b) for a, b in v[1]) + (() if any(a == n_ for a, _ in v[1]) else ((n_, S[j]),)))
            add("upd %d %s %d" % (i, h(n_), j), b".")
        elif op == "find":
            n_ = r.choice(VKEY) if r.random() < 0.5 or k != "M" or not v[1] else r.choice(v[1])[0]
            e = venc(dict(v[1]).get(n_, "missing") if k == "M" else "missing"); add("find %d %s" % (i, h(n_)), e + b" " + e)
        elif op in ("get", "take"):
            x = r.choice([0, 1, 2, len(v[1]) - 1 if k in "LM" else 0, len(v[1]) if k in "LM" else 5, -1, 2 ** 31, 2 ** 32])
            got = v[1][x] if k == "L" and 0 <= x < len(v[1]) else "missing"
            if op == "get": add("get %d %d" % (i, x), venc(got))
            else:
                if got != "missing": S[j] = got; lazy[j] = lazy[i] and got[0] in "LM"
                add("take %d %d %d" % (i, x, j), b".")
        elif op == "el" and k == "L" and v[1] and not lazy[i] and vsize(v) < 700 and vdepth(v) < 20:
            x = r.randrange(len(v[1])); y = r.randrange(len(v[1])); z = r.random()
            if z < 0.5: S[i] = ("L", v[1] + (v[1][x],)); add("pushel %d %d" % (i, x), b".")
            elif z < 0.8: S[i] = ("L", v[1][:y] + (v[1][x],) + v[1][y + 1:]); add("asetel %d %d %d" % (i, y, x), b".")
            elif z < 0.9: S[i] = v[1][x]; add("self %d %d" % (i, x), b".")
            else: S[i] = v[1][x] if v[1][x][0] != "S" else ("S", v[1][x][1], False); add("selfp %d %d" % (i, x), b".")
        elif op == "el" and k == "M" and v[1] and not lazy[i] and vsize(v) < 700 and vdepth(v) < 20:
            n_ = r.choice(VKEY); m, w = r.choice(v[1])
            if r.random() < 0.8:
                S[i] = ("M", tuple((a, w if a == n_ else b) for a, b in v[1]) + (() if any(a == n_ for a, _ in v[1]) else ((n_, w),)))
                add("updel %d %s %s" % (i, h(n_), h(m)), b".")
            elif r.random() < 0.5: S[i] = w; add("selfm %d %s" % (i, h(m)), b".")
            else: S[i] = w if w[0] != "S" else ("S", w[1], False); add("selfpm %d %s" % (i, h(m)), b".")
        elif op == "enc": add("enc %d" % i, venc(v))
        elif op == "count": add("count %d" % i, b"%d" % (len(v[1]) if k in "LM" else -1))
        elif op == "bool": add("bool %d" % i, b"%d%d" % (vtrue(v), not vtrue(v)))
        elif op == "kind": add("kind %d" % i, b"%d%d0" % (VTYPE[k], k not in "LM"))
        elif op == "tostr": add("tostr %d" % i, h(vtext(v, False) if k not in "LM" else b"").encode())
        elif op == "expr": e = r.random() < 0.5; add("expr %d %d" % (i, e), h(vtext(v, e)).encode())
        elif op == "eq":
            w = S[j]
            if i == j: e = b"0" if k == "D" and v[1] != v[1] else b"1"
            elif lazy[i] or lazy[j] or k in "LM" and w[0] in "LM" and k == w[0]: continue
            else: e = b"%d" % (k == w[0] and (k in "NTF" or v[1] == w[1]))
            add("eq %d %d" % (i, j), e)
        elif op == "dump" and not vhasnul(v): add("dump %d" % i, h(vdump(v)).encode())
        elif op == "json":
            v = vrand(r, 2, True)
            while len(vjson(v)) > 4000: v = vrand(r, 2, True)
            S[i] = v; lazy[i] = v[0] in "LM"; add("json %d %s" % (i, h(vjson(v).encode())), b".")
        elif op == "conv": lazy[i] = False; add("conv %d" % i, b".")
        if r.random() < 0.1:
            for q in range(8): add("enc %d" % q, venc(S[q]))
    for q in range(8): add("enc %d" % q, venc(S[q]))
    return lines, exp


def d03_values(cx, r, i):
    lines, exp = value_script(r, r.choice([10, 40, 120]))
    got = cx.d.call("vseq", "\n".join(lines))[0]
    want = b"\n".join(exp) + b"\n"
    cx.ev(len(lines)); cx.count("value scripts")
    for l in lines: cx.count("value op " + l.split()[0])
    cx.seen((lines, got))
    if got != want:
        # what is printed can contain newlines: find the first line that differs by position
        o = 0
        for k, e in enumerate(exp):
            if got[o:o + len(e) + 1] != e + b"\n":
                cx.fail("value differs from the model (%s)" % lines[k].split()[0], "after %r\n%r gave %r, expected %r" % (lines[max(0, k - 25):k], lines[k], got[o:o + len(e) + 40], e)); break
            o += len(e) + 1


def d03(ck):
    ck.rule = "distinct = (operation sequence, results)"
    ck.assumptions += ["a list or map is not changed while it is iterated", "lazy JSON containers are read, copied and converted, not written"]
    ck.build("asan", "asand")
    ck.cases(C.case_stack, ck.q(4000, 60000), tag="stk")
    ck.cases(d03_values, ck.q(4000, 80000), tag="val")
    ck.cases(d03_values, ck.q(1500, 20000), variant="asand", tag="vald")


TABLE = {"D01": d01, "D02": d02, "D03": d03}
