"""Scripts for the map / stack / string / value drivers and their reference models."""
import re
from collisions import PAIRS


def hx(s):
    return s.encode("latin1").hex() if s else "-"


def pick_keys(rng):
    ks = []
    for _ in range(rng.choice([1, 2, 3])):
        ks += rng.choice(PAIRS)
    n = rng.choice([3, 6, 12, 40, 120])
    ks += ["k%d" % i for i in range(n)]
    ks += ["", "a", "a\0b", "a\0c", "\xff\x80", "a" * 40, "0", "01"][: rng.randint(0, 8)]
    rng.shuffle(ks)
    return ks


# ------------------------------------------------------------------ maps
def map_script(rng):
    """-> (capacity, script, expected lines)"""
    keys = pick_keys(rng)
    m = {}
    snaps = []
    lines, exp = [], []
    cnt = 0
    nsnap = 0
    w = rng.choice([dict(add=4, upd=4, rem=2, find=4), dict(add=2, upd=2, rem=6, find=4), dict(add=8, upd=3, rem=1, find=3)])
    other = rng.choice([0.5, 1.5, 3])
    ops = ["add"] * (w["add"] * 4) + ["upd"] * (w["upd"] * 4) + ["rem"] * (w["rem"] * 4) + ["find"] * (w["find"] * 4)
    ops += (["dump", "count", "iter", "nest", "sort", "sortv", "rehash", "rehash0", "compact", "copy", "snap", "rsnap", "get", "load"]) * max(1, int(other * 2))
    dump = lambda d: "".join("%s=%d " % (hx(k), v) for k, v in d.items())
    for _ in range(rng.choice([20, 60, 200])):
        op = rng.choice(ops)
        lo = rng.random() < .4
        k = rng.choice(keys)
        if op in ("add", "upd"):
            cnt += 1
            if op == "add":
                lines.append("%s %s %d" % ("a" if lo else "A", hx(k), cnt))
                if k in m: exp.append("E:Failed to add to hash table")
                else:
                    m[k] = cnt; exp.append(".")
            else:
                lines.append("%s %s %d" % ("u" if lo else "U", hx(k), cnt)); m[k] = cnt; exp.append(".")
        elif op == "rem":
            lines.append("%s %s" % ("r" if lo else "R", hx(k))); m.pop(k, None); exp.append(".")
        elif op == "find":
            lines.append("%s %s" % ("f" if lo else "F", hx(k))); exp.append(str(m[k]) if k in m else "none")
        elif op == "dump": lines.append("D"); exp.append(dump(m))
        elif op == "count": lines.append("C"); exp.append(str(len(m)))
        elif op == "iter":
            # what index an iteration reports after removals is only fixed once compacted
            lines.append("P"); exp.append("%d 0" % len(m))
            lines.append("I"); exp.append("".join("%d:%s=%d " % (i, hx(k), v) for i, (k, v) in enumerate(m.items())))
        elif op == "nest":
            if len(m) > 30: continue
            lines.append("N"); exp.append("".join("%d/%d " % (a, b) for a in m.values() for b in m.values()))
        elif op == "sort": lines.append("S"); m = dict(sorted(m.items())); exp.append(".")
        elif op == "sortv":
            d = rng.choice([1, -1]); lines.append("s %d" % d); m = dict(sorted(m.items(), key=lambda x: d * x[1])); exp.append(".")
        elif op == "rehash": lines.append("H"); exp.append(".")
        elif op == "rehash0": lines.append("h"); exp.append(".")
        elif op == "compact": lines.append("P"); exp.append("%d 0" % len(m))
        elif op == "copy": lines.append("Y %d" % rng.choice([0, 1, 5, 100])); exp.append(".")
        elif op == "snap":
            if nsnap >= 40: continue
            lines.append("Z"); snaps.append(dict(m)); nsnap += 1; exp.append(".")
        elif op == "rsnap":
            if not snaps: continue
            i = rng.randrange(len(snaps)); lines.append("z %d" % i); exp.append(dump(snaps[i]))
        elif op == "get":
            lines.append("P"); exp.append("%d 0" % len(m))
            if m:
                i = rng.randrange(len(m)); k, v = list(m.items())[i]
                lines.append("G %d" % i); exp.append("%s=%d" % (hx(k), v))
            if not m or rng.random() < 0.3:
                lines.append("%s %d" % (rng.choice("GQ"), len(m) + rng.choice([0, 0, 0, 1, 7, 1 << 40]))); exp.append("E:Out of bounds")
        elif op == "load": lines.append("L"); exp.append(".")
    # everything is compared once more at the end, including all saved copies
    lines.append("D"); exp.append(dump(m)); lines.append("C"); exp.append(str(len(m)))
    for i, s in enumerate(snaps):
        lines.append("z %d" % i); exp.append(dump(s))
    for k in rng.sample(keys, min(len(keys), 20)):
        lines.append("F %s" % hx(k)); exp.append(str(m[k]) if k in m else "none")
    return rng.choice([0, 1, 2, 3, 4, 7, 8, 31, 60]), lines, exp


def case_map(cx, rng, i):
    cap, lines, exp = map_script(rng)
    got = cx.d.call("map", cap, "\n".join(lines))[0].decode().split("\n")[:-1]
    cx.ev(len(lines))
    compare(cx, "map", lines, exp, got)
    cx.count("map scripts")
    for l in lines: cx.count("map op " + l[0])
    if i < 4: cx.sample("map cap=%d: %s ..." % (cap, "; ".join(lines[:8])))


def walk_model(m, plan, got, say):
    """m: the map before (changed in place); plan: {visit: [(op, key, value)]}; got: what the walk printed.
    A walk shows every entry that is there when its turn comes, in order, once; the only freedom is that a
    key that is not there may be refused for want of room. Returns the expected text."""
    order = [[k, v] for k, v in m.items()]      # None = removed
    toks = got.split(" ")
    out = []
    at = lambda: toks[len(out)] if len(out) < len(toks) else ""
    item = lambda k, v: "%s=%d" % (hx(k), v)
    i = visit = 0
    while i < len(order):
        if order[i] is None: i += 1; continue
        out.append(item(*order[i]))
        for op, k, v in plan.get(visit, ()):
            pos = next((j for j, e in enumerate(order) if e is not None and e[0] == k), None)
            if op in "ID": out += ["("] + [item(*e) for e in order if e is not None] + [")"]; say("all entries inside")
            elif op == "F": out.append("?%d" % order[pos][1] if pos is not None else "?none")
            elif op == "P": pass
            elif op == "R":
                if pos is not None: say("remove " + ("current" if pos == i else "earlier" if pos < i else "later")); order[pos] = None
                out.append("+")
            elif pos is not None:
                if op == "U": order[pos][1] = v; say("update in place"); out.append("+")
                else: out.append("!"); say("duplicate refused")
            elif at() == "!": out.append("!"); say("no room")
            else: order.append([k, v]); out.append("+"); say("added")
        visit += 1; i += 1
    m.clear(); m.update(e for e in order if e is not None)
    return "".join(x + " " for x in out)


def case_walk(cx, rng, i):
    """Maps that are changed, looked at and walked over again while they are being walked over."""
    keys = pick_keys(rng)[: rng.choice([4, 8, 20, 60])]
    m, lines, steps, cnt = {}, [], [], 0
    def do(l, e): lines.append(l); steps.append(e)
    for _ in range(rng.choice([3, 10, 30, 60])):
        k = rng.choice(keys); cnt += 1
        if rng.random() < 0.75: do("U %s %d" % (hx(k), cnt), ("set", k, cnt))
        else: do("R %s" % hx(k), ("del", k))
    for _ in range(rng.choice([1, 2, 4])):
        if rng.random() < 0.5: do("H", None)
        plan = {}
        for _ in range(rng.choice([1, 3, 8, 30])):
            cnt += 1
            plan.setdefault(rng.randrange(12), []).append((rng.choice("AAUURRRRFIDP"), rng.choice(keys + ["new%d" % rng.randrange(100)] * 2), cnt))
        do("W " + ",".join("%d:%s:%s:%d" % (a, op, hx(k), v) for a, l in sorted(plan.items()) for op, k, v in l), ("walk", plan))
        do("D", ("dump",))
        for k in rng.sample(keys, min(len(keys), 4)): do("F %s" % hx(k), ("find", k))
        for _ in range(rng.choice([0, 3])):
            k = rng.choice(keys); cnt += 1; do("U %s %d" % (hx(k), cnt), ("set", k, cnt))
        do("C", ("count",))
    cap = rng.choice([0, 1, 2, 3, 4, 7, 8, 31, 60])
    got = cx.d.call("map", cap, "\n".join(lines))[0].decode().split("\n")[:-1]
    exp = []
    for n, s in enumerate(steps):
        g = got[n] if n < len(got) else ""
        if s is None: exp.append(".")
        elif s[0] == "set": m[s[1]] = s[2]; exp.append(".")
        elif s[0] == "del": m.pop(s[1], None); exp.append(".")
        elif s[0] == "find": exp.append(str(m[s[1]]) if s[1] in m else "none")
        elif s[0] == "count": exp.append(str(len(m)))
        elif s[0] == "dump": exp.append("".join("%s=%d " % (hx(k), v) for k, v in m.items()))
        else: exp.append(walk_model(m, s[1], g, lambda w: cx.count("while walking: " + w)))
    cx.ev(len(lines))
    compare(cx, "walk", lines, exp, got)
    cx.count("maps walked over")
    if i < 2: cx.sample("walk cap=%d: %s ..." % (cap, "; ".join(lines[-6:])[:300]))


def compare(cx, what, lines, exp, got):
    cx.seen((what, tuple(l.split()[0] for l in lines), tuple(got[:50])))
    if exp == got: return
    for n, (l, e) in enumerate(zip(lines, exp)):
        g = got[n] if n < len(got) else "<nothing>"
        if g != e:
            cx.fail("%s:%s" % (what, l.split()[0]), "after %d operations, %r gave %r; the reference model says %r\nscript: %s" % (n, l, g[:300], e[:300], "; ".join(lines[: n + 1])[-3000:]))
            return
    cx.fail("%s:extra" % what, "unexpected output %r" % got[len(lines):])


# ------------------------------------------------------------------ stacks
def stack_script(rng):
    heap = rng.random() < .6
    cap = rng.choice([1, 2, 3, 4, 8, 16])
    lines, exp = [], []
    s, snaps, saves = [], [], []
    cnt = 0
    cur = cap
    ops = "+++++----TTGG==CDDXWVZzYI"
    if rng.random() < .5: ops += "++++++++"
    if not heap: ops = ops.replace("Z", "").replace("z", "").replace("Y", "").replace("I", "")
    dump = lambda d: "".join("%d " % x for x in d)
    prot = 0     # elements a save protects from popping
    shared = False   # another holder has the same stack: popping is refused
    for _ in range(rng.choice([15, 50, 150])):
        op = rng.choice(ops)
        if op == "+":
            cnt += 1
            lines.append("+ %d" % cnt)
            if not heap and len(s) >= cap: exp.append("E:*")
            else:
                s.append(cnt); exp.append("."); shared = False
        elif op == "-":
            lines.append("-")
            if not s: exp.append("none")
            elif shared or len(s) <= prot: exp.append("E:7" if not shared else "E:1")
            else: exp.append(str(s.pop()))
        elif op == "T": lines.append("T"); exp.append(str(s[-1]) if s else "none")
        elif op == "G":
            j = rng.randrange(0, len(s) + 3); lines.append("G %d" % j); exp.append(str(s[j]) if j < len(s) else "none")
        elif op == "=":
            j = rng.randrange(0, len(s) + 1); cnt += 1
            if j < prot: continue
            if j == len(s) and (not heap) and len(s) >= cap: continue
            lines.append("= %d %d" % (j, cnt))
            if j == len(s): s.append(cnt)
            else: s[j] = cnt
            shared = False
            exp.append(".")
        elif op == "C": lines.append("C"); exp.append(str(len(s)))
        elif op == "D": lines.append("D"); exp.append(dump(s))
        elif op == "X":
            if saves: continue
            j = rng.randrange(0, len(s) + 1); lines.append("X %d" % j)
            if shared and j < len(s): exp.append("E:1")
            else:
                del s[j:]; exp.append(".")
        elif op == "W":
            if snaps or len(saves) > 20: continue
            lines.append("W"); saves.append((prot, len(s))); prot = len(s); exp.append(".")
        elif op == "V":
            if not saves: continue
            lines.append("V"); prot, n = saves.pop(); del s[n:]; exp.append(".")
        elif op == "Z":
            if saves or len(snaps) > 40: continue
            lines.append("Z"); snaps.append(list(s)); exp.append("."); shared = True
        elif op == "z":
            if not snaps: continue
            j = rng.randrange(len(snaps)); lines.append("z %d" % j); exp.append(dump(snaps[j]))
        elif op == "Y":
            if saves: continue
            lines.append("Y %d" % rng.choice([0, 1, len(s), len(s) + 5])); exp.append("."); shared = False
        elif op == "I": lines.append("I"); exp.append("".join("%d=%d " % (a, b) for a, b in enumerate(s)))
    lines.append("D"); exp.append(dump(s))
    for j, t in enumerate(snaps): lines.append("z %d" % j); exp.append(dump(t))
    return heap, cap, lines, exp


def case_stack(cx, rng, i):
    heap, cap, lines, exp = stack_script(rng)
    got = cx.d.call("stk", 0 if heap else 1, cap, "\n".join(lines))[0].decode().split("\n")[:-1]
    got = ["E:*" if g.startswith("E:") and e == "E:*" else g for g, e in zip(got, exp)] + got[len(exp):]
    cx.ev(len(lines))
    compare(cx, "stack", lines, exp, got)
    cx.count("stack scripts")
    for l in lines: cx.count("stack op " + l[0])
    if i < 4: cx.sample("stack cap=%d heap=%d: %s ..." % (cap, heap, "; ".join(lines[:8])))


# ------------------------------------------------------------------ strings (bytes)
ESC = {38: b"&amp;", 60: b"&lt;", 62: b"&gt;", 34: b"&quot;", 39: b"&#x27;", 96: b"&#x60;"}


def esc(s):
    return b"".join(ESC.get(c, bytes([c])) for c in s)


def stripc(s):
    out, i, n = bytearray(), 0, len(s)
    simple = {110: 10, 114: 13, 97: 7, 116: 9, 118: 11, 98: 8, 102: 12, 92: 92}
    hexd = b"0123456789abcdefABCDEF"
    while i < n:
        c = s[i]
        if c == 92 and i + 1 < n:
            i += 1; d = s[i]
            if d in simple: out.append(simple[d]); i += 1
            elif d == 120 and i + 1 < n and s[i + 1] in hexd:
                j = i + 1
                while j < n and j < i + 3 and s[j] in hexd: j += 1
                out.append(int(s[i + 1:j], 16)); i = j
            elif 48 <= d <= 55:
                j = i
                while j < n and j < i + 3 and 48 <= s[j] <= 55: j += 1
                out.append(int(s[i:j], 8) & 255); i = j
            else: out.append(d); i += 1
        else: out.append(c); i += 1
    return bytes(out)


def addc(s, what):
    simple = {10: b"n", 9: b"t", 13: b"r", 7: b"a", 11: b"v", 8: b"b", 12: b"f"}
    out = bytearray()
    for c in s:
        if c in what:
            if c < 32 or c > 126:
                out += b"\\" + simple.get(c, b"%03o" % c); continue
            out += b"\\"
        out.append(c)
    return bytes(out)


def indent(s, ind):
    if not s: return b""
    end = s.endswith(b"\n")
    body = s[:-1] if end else s
    return b"\n".join(ind + l for l in body.split(b"\n")) + (b"\n" if end else b"")


def djb(s):
    h = 5381
    for c in s:
        if not c: break
        h = (h * 33 + c) & 0xffffffff
    return h


def rnd_bytes(rng):
    k = rng.random()
    if k < .06: return b""
    n = rng.choice([1, 2, 3, 5, 9, 17, 40, 200])
    if k < .3: al = b"ab"
    elif k < .5: al = b" \t\r\n.a/"
    elif k < .65: al = b"&<>\"'`=;amp#x27"
    elif k < .8: al = b"\\nrtx0123456789abfv\\\\"
    elif k < .9: al = b"a\0b\n"
    else: al = bytes(range(256))
    return bytes(rng.choice(al) for _ in range(n))


def part_of(rng, s):
    if s and rng.random() < .7:
        a = rng.randrange(len(s)); return s[a:a + rng.choice([1, 1, 2, 3, 9])]
    return rnd_bytes(rng)[:9]


def cstr(b):
    return b.split(b"\0")[0]


STR_OPS = ["append", "append_str", "append_self", "asprintf_append", "extend", "compact", "truncate", "ltrim", "rtrim", "reduce",
           "stripcslashes", "esc_append", "replace", "addcslashes", "esc", "indent", "indent_append", "copy", "asprintf", "implode",
           "eq", "eq_strl", "strnstr", "hash", "djb"]


def case_string(cx, rng, i):
    op = STR_OPS[i % len(STR_OPS)] if rng.random() < .9 else rng.choice(STR_OPS)
    s = rnd_bytes(rng)
    a, args, want = rnd_bytes(rng), [], None
    if op in ("append", "append_str"): args, want = [a], s + a
    elif op == "append_self": want = s + s
    elif op == "asprintf_append": args, want = [a], s + cstr(a) + b"|42"
    elif op == "extend": args, want = [rng.choice([0, 1, 10, len(s), len(s) + 1, 5000])], s
    elif op == "compact": want = s
    elif op == "truncate":
        x, y = rng.choice([0, 0, 1, rng.randint(0, len(s) + 3)]), rng.choice([len(s), rng.randint(0, len(s) + 3), 1 << 20])
        e = min(len(s), y); args, want = [x, y], s[min(x, e):e]
    elif op in ("ltrim", "rtrim"):
        w = rng.choice([b" \t\r\n", b"./", b"ab", bytes([0, 97]), b"", a[:4]]); args = [w]
        want = s
        if w: want = s.lstrip(w) if op == "ltrim" else s.rstrip(w)
    elif op in ("reduce", "replace"):
        x = part_of(rng, s); y = rng.choice([b"", b"z", x[:-1], x, x + b"y", rnd_bytes(rng)[:6]])
        args = [x, y]
        want = s if not x or not s or (op == "reduce" and len(y) > len(x)) else s.replace(x, y)
    elif op == "stripcslashes": want = stripc(s)
    elif op == "esc_append": args, want = [a], s + esc(a)
    elif op == "esc": want = esc(s)
    elif op == "addcslashes":
        w = rng.choice([b"\n\t\r\a\v\b\f\0\x7f\xff", b"ab\\", b"", part_of(rng, s)]); args, want = [w], addc(s, w)
    elif op == "indent": args, want = [a[:6]], indent(s, a[:6])
    elif op == "indent_append": b2 = rnd_bytes(rng); args, want = [a[:6], b2], b2 + indent(s, a[:6])
    elif op == "copy": want = s
    elif op == "asprintf": args, want = [a], cstr(a) + b"-7-" + cstr(a)
    elif op == "implode":
        parts = [rnd_bytes(rng) for _ in range(rng.choice([0, 1, 2, 5, 30]))]; sep = rng.choice([b"", b",", b", ", b"\0"])
        args, want = [sep] + parts, sep.join(parts)
    elif op in ("eq", "eq_strl"):
        o = rng.choice([s, s + b"\0", s[:-1], s[:-1] + b"q", a])
        if rng.random() < .3:
            x, y = rng.choice(PAIRS); s, o = x.encode(), rng.choice([x, y]).encode()
        if rng.random() < .2:
            s, o = b"k\0a", rng.choice([b"k\0b", b"k\0a"])
        args, want = [o], int(s == o)
    elif op == "strnstr":
        n = part_of(rng, s); args, want = [n], (s.find(n) if n and s else -1)
    elif op == "djb": want = djb(s)
    share = rng.randrange(4)
    r = cx.d.call("str", op, share, s, *args)
    cx.ev(); cx.seen((op, share, s, tuple(args))); cx.count("string op " + op)
    if r[0] != b"ok":
        cx.fail("str:%s" % op, "%s(%r, %r) failed: %r" % (op, s, args, r)); return
    if isinstance(want, int) or op == "hash":
        got = int(r[1])
        if op == "hash":
            if got < 0: cx.fail("str:hash", "hash of %r differs between the two ways to compute it" % s)
        elif got != want: cx.fail("str:%s" % op, "%s(%r, %r) = %r, want %r" % (op, s, args, got, want))
        rest = r[2:]
    else:
        if r[1] != want: cx.fail("str:%s" % op, "%s(%r, %r) = %r, want %r" % (op, s, args, r[1], want))
        elif r[2] != b"1": cx.fail("str:%s:nul" % op, "%s(%r, %r): result is not NUL terminated" % (op, s, args))
        elif r[3] != b"1": cx.fail("str:%s:hash" % op, "%s(%r, %r): the result has a stale hash" % (op, s, args))
        rest = r[4:]
    if rest and rest[1] != s:
        cx.fail("str:%s:shared" % op, "%s(%r, %r): another holder of the string now sees %r" % (op, s, args, rest[1]))
    if i < len(STR_OPS) and i % 6 == 0: cx.sample("%s(%r, %r) = %r" % (op, s[:20], args[:3], want if isinstance(want, int) else (want or b"")[:30]))
