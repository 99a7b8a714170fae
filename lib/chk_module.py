"""M01: compiled templates moved, stored, checked and loaded elsewhere."""
import random, struct
import drv, tgen
from drv import encv, Fn
from chk_safe import scenario, flagset, mutate

INFO = "size version flags programs opcodes o_hash o_ts o_data data_offset o_programs o_opcodes addr_ok sizeof_opcode ts o_size o_version".split()


def info(d, slot):
    R = d.call("module", slot, "info")
    return dict(zip(INFO, (int(x) for x in R[1:])))


def body(raw, inf):
    """everything that has to be the same every time: not the checksum and not the time"""
    x = bytearray(raw)
    for o in (inf["o_hash"], inf["o_ts"]): x[o:o + 8] = b"\0" * 8
    return bytes(x)


def other(cx):
    """a second process, where fresh memory has other contents"""
    if not hasattr(cx, "d2"):
        cx.d2 = drv.Drv("asan", timeout=cx.d.timeout, env={"ASAN_OPTIONS": drv.ASAN_OPTIONS % 0 + ":max_malloc_fill_size=16777216:malloc_fill_byte=%d" % 0x5A})
    return cx.d2


PRINT_SKIP = (b"ADDR", b"TS", b"HASH")


def printed(d, slot):
    R = d.call("module", slot, "print")
    if R[0] != b"ok": return R
    return b"\n".join(l for l in R[1].split(b"\n") if not l.strip().startswith(PRINT_SKIP))


def run(d, slot, outer):
    """result and what the helpers saw; not the memory in use"""
    R = d.call("exec", 0, slot, 0, outer)
    return R[:R.index(b"blocks")] if b"blocks" in R else R


def setup(d, sc, f, slot=0, also=()):
    src, ps, data, h = sc
    d.call("ctx_new", 0)
    d.call("vm", 0, 0, f, "n", encv(ps), ",".join("%s:%s" % kv for kv in h.items()), "")
    d.call("val", 0, 0, "n", encv(data))
    return d.call("compile", slot, 0, f, src)


def case(cx, r, i):
    d = cx.d
    src, ps, data, h = sc = scenario(r, r.choice([1, 2, 3]), r.choice([2, 5, 12]))
    f = flagset(r)
    d2 = other(cx)
    what = "%r flags %d" % (src, f)
    try:
        R = setup(d, sc, f)
        if R[0] != b"ok": cx.count("not compiled"); return
        outer = r.choice([0, 1])
        want = run(d, 0, outer)
        inf = info(d, 0)
        dump = printed(d, 0)
        cx.ev(); cx.seen((src, f)); cx.count("templates"); cx.count("opcodes", inf["opcodes"]); cx.count("programs", inf["programs"])
        if not inf["addr_ok"]: cx.fail("address of a new module", what)

        # the same every time, in this process and in another one
        base = r.choice([16, 16, 4096, 0x7fff00000000])
        n1 = d.call("module", 0, "norm", base)[1]
        b1 = body(n1, inf)
        R = d.call("compile", 1, 0, f, src)
        n2 = d.call("module", 1, "norm", base)[1]
        if body(n2, inf) != b1: cx.fail("compiled form differs", "%s: compiled twice, bytes %r differ" % (what, where(b1, body(n2, inf), inf)))
        R = d.call("compile_again", 1, 0, f, src, *[r.choice([flagset(r, 0.2), f]) for _ in range(r.choice([1, 1, 2]))])
        n2 = d.call("module", 1, "norm", base)[1] if R[0] == b"ok" else R
        if R[0] != b"ok" or body(n2, inf) != b1: cx.fail("compiled form differs when the parse tree was compiled before", "%s: bytes %r differ" % (what, where(b1, body(n2, inf), inf) if R[0] == b"ok" else R))
        R = setup(d2, sc, f)
        n3 = d2.call("module", 0, "norm", base)[1]
        if body(n3, inf) != b1: cx.fail("compiled form differs between processes", "%s: bytes %r differ" % (what, where(b1, body(n3, inf), inf)))
        cx.count("compiled forms compared", 3)

        # moved around
        slot = 0
        for step in range(r.choice([1, 2, 4, 8])):
            to = r.randrange(2, 40)
            if to == slot: continue
            R = d.call("module", slot, "move", to, r.choice([0, 0, 1, 2, 7, 64]), r.choice([0, 1]), r.choice([0, 1, 1]))
            if R[0] != b"ok": cx.fail("moving failed", "%s: %r" % (what, R)); return
            slot = to
            got = run(d, slot, outer)
            cx.count("moves")
            if got != want: cx.fail("output differs after moving", "%s data %r: %r after %d moves, %r before" % (what, data if len(repr(data)) < 400 else "...", got, step + 1, want)); return
            if r.random() < 0.5:
                dump2 = printed(d, slot)
                if dump2 != dump: cx.fail("module differs after moving", "%s: %r" % (what, firstdiff(dump, dump2)))
            if r.random() < 0.5:
                nb = d.call("module", slot, "norm", base)[1]
                if body(nb, inf) != b1: cx.fail("bytes differ after moving", "%s: %r" % (what, where(b1, body(nb, inf), inf)))

        # stored and loaded elsewhere
        d2.call("module_load", 3, 0, n1)
        got = run(d2, 3, outer)
        cx.count("loaded by another process")
        if got != want: cx.fail("output differs in another process", "%s data %r: %r there, %r here" % (what, data, got[:3], want[:3]))
        d.call("module_load", 41, 0, n1)
        if run(d, 41, outer) != want: cx.fail("output differs after loading", what)

        # checksum
        d.call("module_load", 42, 0, n1)
        hash1 = d.call("module", 42, "hash")[1]
        if d.call("module", 42, "verify", 0)[1] != b"1" or d.call("module", 42, "verify", 1)[:2] != [b"ok", b"1"]: cx.fail("checksum of an unchanged module refused", what)
        if d.call("module", 42, "hash")[1] != hash1: cx.fail("checksum changes", what)
        hash2 = hash1
        o_size = inf["o_size"]
        start = inf["o_hash"] + 8
        where_ = set()
        for region in ((start, inf["o_data"]), (inf["o_programs"], inf["o_opcodes"]), (inf["o_opcodes"], min(inf["size"], inf["o_opcodes"] + inf["opcodes"] * inf["sizeof_opcode"])), (inf["o_data"], inf["size"]), (inf["size"] - 8, inf["size"]), (start, inf["size"])):
            if region[1] > region[0]:
                for _ in range(cx.nflip): where_.add(r.randrange(*region))
        if i % 50 == 0 and inf["size"] < 20000: where_ |= set(range(start, inf["size"]))
        for o in sorted(where_):
            x = 1 << r.randrange(8) if r.random() < 0.7 else r.randrange(1, 256)
            if o_size <= o < o_size + 8: continue # read before the checksum; who stores modules compares the size first
            d.call("module", 42, "flip", o, x)
            v = d.call("module", 42, "verify", 0)
            e = d.call("module", 42, "verify", 1) if r.random() < 0.2 else None
            d.call("module", 42, "flip", o, x)
            cx.count("corruptions")
            if v[1] != b"0" or (e and e[0] != b"err"): cx.fail("corruption not noticed", "%s: byte %d of %d xor %d: %r %r" % (what, o, inf["size"], x, v, e)); break
        for o in range(inf["o_hash"], inf["o_hash"] + 8):
            d.call("module", 42, "flip", o, 1 << r.randrange(8)); v = d.call("module", 42, "verify", 0)
            if v[1] != b"0": cx.fail("changed checksum not noticed", "%s: byte %d" % (what, o)); break
            d.call("module_load", 42, 0, n1); d.call("module", 42, "hash")
        if d.call("module", 42, "verify", 0)[1] != b"1": cx.fail("checksum of an unchanged module refused", what + " (again)")
        # another version with a checksum that matches
        for ver in (inf["version"] + 1, inf["version"] - 1, 0, r.randrange(1 << 30)):
            if ver == inf["version"]: continue
            d.call("module", 42, "setver", ver); d.call("module", 42, "hash")
            v, e = d.call("module", 42, "verify", 0), d.call("module", 42, "verify", 1)
            if v[1] != b"0" or e[0] != b"err": cx.fail("wrong version not noticed", "%s: version %d: %r %r" % (what, ver, v, e))
        cx.count("wrong versions", 4)
    finally:
        d.call("ctx_free", 0)
        try: d2.call("ctx_free", 0)
        except drv.Crash as e: cx.fail(e.kind, what + "\n" + e.text[-1500:])


def where(a, b_, inf):
    if len(a) != len(b_): return "lengths %d %d" % (len(a), len(b_))
    at = [i for i in range(len(a)) if a[i] != b_[i]]
    def name(o):
        if o < inf["o_data"]: return "header+%d" % o
        if inf["o_programs"] <= o < inf["o_opcodes"]: return "programs+%d" % (o - inf["o_programs"])
        if o >= inf["o_opcodes"] and o < inf["o_opcodes"] + inf["opcodes"] * inf["sizeof_opcode"]: return "opcode %d+%d" % divmod(o - inf["o_opcodes"], inf["sizeof_opcode"])
        return "data+%d" % (o - inf["o_data"])
    return [name(o) for o in at[:6]] + ["%d in all" % len(at)]


def firstdiff(a, b_):
    for x, y in zip(a, b_) if isinstance(a, list) else zip(a.split(b"\n"), b_.split(b"\n")):
        if x != y: return x, y
    return len(a), len(b_)


def m01(ck):
    ck.rule = "distinct = (template, flags) compiled, moved, loaded by another process and corrupted"
    ck.build("asan")
    def fn(cx, r, i):
        cx.nflip = 2 if cx.tier == "quick" else 12
        case(cx, r, i)
    ck.cases(fn, ck.q(700, 15000), tag="mod")
    ck.assumptions += ["the checksum covers what follows it; the eight bytes of the file type before it are not part of it", "the size field is compared with the number of bytes at hand before the checksum is computed, as the caches do",
                       "the second process fills fresh memory with another pattern, so that bytes that were never written show"]


TABLE = {"M01": m01}
