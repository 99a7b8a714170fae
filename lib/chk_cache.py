"""C01-C03: template caches."""
import os, random, shutil, struct, tempfile
import drv, tgen, collisions
from drv import encv, Fn
from chk_safe import scenario, flagset, mutate, req, BAD_RUN, MORE_PARTIALS

KINDS = ["simple", "mmap", "lmdb"]
STAT = "name entries hits misses refcount collisions size total_size data total_data slots".split()


def stat(d, slot=0):
    R = d.call("cache_ctl", slot, "stat")
    assert R[0] == b"ok", R
    return {k: (v if k == "name" else int(v)) for k, v in zip(STAT, R[1:])}


# the 64-bit hash of a long text does not see such a change: both words have low halves equal to the key of their lane
def xxh3_twins(r, n, tag=b""):
    """two different texts of length n > 240 with equal hashes"""
    SECRET = bytes.fromhex("b8fe6c3923a44bbe7c01812cf721ad1cded46de9839097db7240a4a4b7b3671fcb79e64eccc0e578825ad07dccff7221b8084674f743248ee03590e6813a264c3c2852bb91c300cb88d0658b1b532ea371644897a20df94e3819ef46a9deacd8")
    lane = r.randrange(8); s1, s2 = sorted(r.sample(range(0, min(3, (n - 8) // 64)), 2)) if n >= 200 else (0, 1)
    t = bytearray(bytes(r.choice(b"abcdefgh \n") for _ in range(n)))
    if tag: t[-len(tag):] = tag
    for s in (s1, s2):
        o = 64 * s + 8 * lane
        key = SECRET[8 * s + 8 * lane:8 * s + 8 * lane + 4]
        t[o:o + 4] = key
    a = bytearray(t); b = bytearray(t)
    o1, o2 = 64 * s1 + 8 * lane + 4, 64 * s2 + 8 * lane + 4
    a[o1:o1 + 4], a[o2:o2 + 4] = b"AAAA", b"BBBB"
    b[o1:o1 + 4], b[o2:o2 + 4] = b"AAAB", b"BBBA"
    return bytes(a), bytes(b)


class Store:
    """where a database file lives"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="hbsc"); return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    def path(self): return os.path.join(self.dir, "c.db")


def new_cache(r, d, kind, store, slot=0, ctx=0):
    if kind == "lmdb": R = d.call("cache_new", slot, ctx, "lmdb", store.path()); what = "lmdb"
    elif kind == "simple": R = d.call("cache_new", slot, ctx, "simple"); what = "simple"
    else:
        slots = r.choice([1, 1, 2, 3, 7, 64, 512])
        size = 4096 * r.choice([3, 4, 5, 8, 40])
        if slots > 512: size += 4096
        R = d.call("cache_new", slot, ctx, "mmap", size, slots); what = "mmap %d bytes %d slots" % (size, slots)
    assert R[0] == b"ok", R
    return what


def variants(r, ps):
    """more partials, which differ only slightly from those there are"""
    out = dict(ps)
    names = list(ps)
    for k in names:
        t = drv.b(ps[k])
        for j in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < 0.2: u = t + r.choice([b" ", b"\n", b"x"])
            elif x < 0.3: u = r.choice([b" ", b"\n", b"x"]) + t
            elif x < 0.5: u = t.replace(b"{{a", b"{{b", 1)
            elif x < 0.6: u = t.replace(b"{{", b"{{&", 1) if not t.startswith((b"{{#", b"{{>", b"{{!", b"{{^", b"{{{", b"{{/")) else t
            elif x < 0.7: u = t
            elif x < 0.85 and t:
                o = r.randrange(len(t)); u = t[:o] + (bytes([t[o] ^ 32]) if chr(t[o]).isalpha() else t[o:o + 1]) + t[o + 1:]
            else: u = t[:-1]
            out["%s_%d" % (k, j)] = u
    return out


def use(r, names, deep=True):
    """source that uses partials in many ways"""
    out = []
    for _ in range(r.randint(1, 6)):
        k = r.choice(names)
        x = r.random()
        if x < 0.35: out.append("{{> %s}}" % k)
        elif x < 0.45: out.append("{{> %s %s}}" % (k, r.choice(["obj", "this", "a=1", "obj b=2", "items"])))
        elif x < 0.6: out.append("\n%s{{> %s}}\n" % (r.choice(["  ", "\t", " ", ""]), k))
        elif x < 0.7: out.append("{{#each items}}{{> %s}}{{/each}}" % k)
        elif x < 0.8: out.append("{{#> %s}}blk{{a}}{{/%s}}" % (k, k))
        elif x < 0.88: out.append("{{hCgc}}" if r.random() < 0.5 else "{{hExp}}" if r.random() < 0.5 else "{{hReset}}")
        else: out.append("text{{a}}")
    return "".join(out)


class Sess:
    """renderings with a cache, and the same without"""
    def __init__(self, cx, r, kind):
        self.cx, self.r, self.kind, self.d = cx, r, kind, cx.d
        self.fresh = {}
        self.vms = {}
        self.mods = {}
        self.trace = []

    def expect(self, key, src, data, dd=None):
        k = (key, src, repr(data))
        if k not in self.fresh:
            p, h, f = key
            self.fresh[k] = drv.Result(self.d.call("render", *req(src, dict(p), data, dict(h), f, dd=dd, extra=["log", "1"])))
        return self.fresh[k]


def family(r):
    """partials, helpers, sources and data for one session"""
    kind = r.random()
    if kind < 0.45:
        src, ps, data, h = scenario(r, 2, 3)
        ps = variants(r, ps)
        srcs = [src]
    else:
        ps = {"p": "<{{a}}>", "q": "{{b}}|{{> p}}\n", "w": "[{{> @partial-block}}]", "deep": "\n {{> q}}\n{{> p obj}}", "each": "{{#each items}}{{this}},{{/each}}", "e": "", "cond": "{{#if a}}y{{else}}n{{/if}}",
              "cyc": "{{a}}{{#with next}}{{> cyc}}{{/with}}"}
        ps = variants(r, ps)
        data = {"a": r.choice(["<A>", "x", 0, True]), "b": "B&", "obj": {"a": "oa", "b": "ob", "items": [7]}, "items": [1, "two", {"a": 3}][:r.randint(0, 3)], "next": {"a": 1, "next": {"a": 2, "next": {"a": 3}}}}
        h = {}
        srcs = []
    if r.random() < 0.5:
        for j, (x, y) in enumerate(r.sample(collisions.PAIRS, 2)): ps["cx%d" % j] = x; ps["cy%d" % j] = y
    if r.random() < 0.4:
        n = r.choice([260, 300, 500, 510, 511, 512, 513, 700, 1500])
        a, b = xxh3_twins(r, n, r.choice([b"", b"{{a}}"]))
        ps["tx"] = a; ps["ty"] = b
    if r.random() < 0.3:
        for n in r.sample(range(505, 516), 3): # around the longest key a database takes as it is
            ps["l%d" % n] = ("{{a}}" + "y" * n)[:n]; ps["m%d" % n] = ("{{b}}" + "y" * n)[:n]
    if r.random() < 0.3:
        for j in range(4): ps["big%d" % j] = ("%d{{a}}" % j) * r.choice([100, 700])
    ps.update(MORE_PARTIALS)
    h = dict(h, hThrow="throw", hCgc="cgc", hReset="creset", hExp="cexp", hId="id")
    for _ in range(r.randint(2, 5)): srcs.append(use(r, list(ps)).encode())
    return srcs, ps, h, data


MUSTACHE = {"mu": "|a|{{a}}", "mo": "{{=| |=}}|a|{{a}}", "lam": "{{#t}}x{{a}}{{/t}}", "lv": "{{v}}", "up": "{{#obj}}{{items.0}}{{b}}{{/obj}}", "hm": "{{a}}\n{{b}}\n"}


def c01_case(cx, r, i):
    d = cx.d
    kind = KINDS[i % 3]
    d.call("clock", 1000000)
    with Store() as st:
        try: c01_session(cx, r, kind, st)
        finally:
            d.call("clock", -1)
            for c in (0, 1, 2): d.call("ctx_free", c)
            if getattr(cx, "d2", None):
                for c in (0, 1): cx.d2.call("ctx_free", c)


def second(cx):
    if not getattr(cx, "d2", None): cx.d2 = drv.Drv(cx.d.variant, timeout=cx.d.timeout)
    return cx.d2


def c01_session(cx, r, kind, st):
    d = cx.d
    s = Sess(cx, r, kind)
    d.call("ctx_new", 0)
    desc = new_cache(r, d, kind, st)
    if r.random() < 0.5: d.call("cache_cfg", 0, r.choice(["-1", "5", "100", "0"]), r.choice([0, 1, 2, 5]), r.choice([0, 0, 500, 3000]))
    fams = [family(r) for _ in range(r.choice([1, 1, 2]))]
    must = r.random() < 0.35
    procs = [(d, 0)]
    if kind == "lmdb" and r.random() < 0.5:
        d2 = second(cx); d2.call("ctx_new", 0); new_cache(r, d2, kind, st); procs.append((d2, 0)); d2.call("clock", 1000000)
    vms = [] # (driver, slot, key, family)
    nvm = 0
    mods = {}
    pins = []
    now = 1000000
    log = [desc]
    clean_ctx1 = False
    def mkvm():
        nonlocal nvm
        dd, _ = r.choice(procs)
        fam = r.choice(fams)
        f = flagset(r, 0.5)
        ps, h = dict(fam[1]), dict(fam[2])
        if must or r.random() < 0.15:
            f |= r.choice([1, 1, 4097]); ps.update(MUSTACHE)
        ctx = 0
        if r.random() < 0.3 and kind != "lmdb" and dd is d: # a cache that outlives its VMs
            ctx = 1; d.call("ctx_new", 1) if not any(v[4] == 1 for v in vms) else None
        slot = nvm % 12; nvm += 1
        for v in list(vms):
            if v[0] is dd and v[1] == slot: dd.call("vm_free", slot); vms.remove(v)
        R = dd.call("vm", slot, ctx, f, "n", encv(ps), ",".join("%s:%s" % x for x in h.items()), "0")
        assert R[0] == b"ok", R
        vms.append((dd, slot, (tuple(ps.items()), tuple(h.items()), f), fam, ctx))
    for _ in range(r.randint(1, 4)): mkvm()
    for step in range(r.randint(10, 30)):
        x = r.random()
        if x < 0.72:
            if not vms: mkvm()
            dd, slot, key, fam, ctx = v = r.choice(vms)
            src = r.choice(fam[0])
            data = fam[3]
            if key[2] & 1 and r.random() < 0.6:
                src = "".join(r.choice(["{{> mu}}", "{{> mo}}", "{{=| |=}}|> mu||={{ }}=|", "{{=<% %>=}}<%> mu%><%> mo%><%={{ }}=%>", "{{> lam}}", "{{> lv}}", "{{#t}}i{{a}}{{/t}}", "  {{> hm}}\n", "\n {{> hm}}\n", "{{> up}}", "{{=[[ ]]=}}[[> p]][[v]][[={{ }}=]]"]) for _ in range(r.randint(1, 5))).encode()
                data = dict(data, t=Fn("lamtext"), v=Fn("lamvar"), planet="Earth") if isinstance(data, dict) else data
            elif r.random() < 0.12: src = r.choice(BAD_RUN)
            elif r.random() < 0.06: src = mutate(r, src)
            log.append(("exec", slot, src[:80], key[2]))
            E = s.expect(key, src, data)
            R = dd.call("compile", 50, ctx, key[2], src)
            if R[0] != b"ok": cx.count("template refused"); continue
            dd.call("val", 50, ctx, "n", encv(data))
            outer = r.choice([0, 1])
            before = stat(dd) if r.random() < 0.2 else None
            R = drv.Result(dd.call("exec", slot, 50, 50, outer))
            if R.ok and len(R.out) < 200 and b"{{>" in src: cx.sample("%s: %r flags %d -> %r" % (kind, src[:150], key[2], R.out))
            cx.ev(); cx.count("rendered with %s" % kind); cx.seen((kind, src, key[2], R.key()))
            if R.key() != E.key() or R.ev != E.ev:
                cx.fail("result differs with a %s cache" % kind, "template %r flags %d handler %d\npartials %r\ndata %r\n  cached %r %r\nuncached %r %r\nhistory %r" % (src, key[2], outer, dict(key[0]), data, R, R.ev, E, E.ev, log[-12:]))
                return
            if before:
                S = stat(dd); cx.count("cache hits", max(0, S["hits"] - before["hits"])); cx.count("cache misses", max(0, S["misses"] - before["misses"]))
        elif x < 0.78:
            now += r.choice([1, 3, 5, 6, 50, 101]); log.append(("clock", now))
            for dd, _ in procs: dd.call("clock", now)
        elif x < 0.82: log.append("cfg"); r.choice(procs)[0].call("cache_cfg", 0, r.choice(["-1", "5", "100", "0"]), r.choice([0, 1, 2, 5]), r.choice([0, 0, 500, 3000]))
        elif x < 0.86: log.append("gc"); r.choice(procs)[0].call("cache_ctl", 0, "gc"); cx.count("collections")
        elif x < 0.89: log.append("reset"); r.choice(procs)[0].call("cache_ctl", 0, "reset"); cx.count("resets")
        elif x < 0.93:
            fam = r.choice(fams); names = [n for n in fam[1] if any(b"> %s}" % n.encode() in t for t in fam[0])] or list(fam[1])
            k = drv.b(fam[1][r.choice(names)])
            if pins and r.random() < 0.5:
                dd, k, slot = pins.pop(r.randrange(len(pins))); dd.call("cache_release", 0, k, slot)
            elif len(pins) < 5:
                dd, _ = r.choice(procs); slot = 20 + len(pins)
                while any(p[2] == slot for p in pins): slot += 1
                R = dd.call("cache_find", 0, k, slot, 0)
                if R[0] == b"hit": pins.append((dd, k, slot)); cx.count("pinned")
            log.append("pin")
        elif x < 0.95: mkvm(); log.append("vm")
        elif x < 0.965 and vms:
            v = vms.pop(r.randrange(len(vms))); v[0].call("vm_free", v[1]); log.append("vm_free")
        elif x < 0.98 and kind != "lmdb":
            keep = [v for v in vms if v[4] != 1]
            if len(keep) != len(vms): vms[:] = keep; d.call("ctx_free", 1); log.append("ctx_free 1"); cx.count("VMs gone before the cache")
        elif kind == "lmdb":
            o = second(cx)
            y = r.random()
            if y < 0.3 and len(procs) == 1 and not pins: # closed and opened again
                for v in vms: d.call("vm_free", v[1])
                vms.clear(); d.call("cache_free", 0); new_cache(r, d, kind, st); log.append("reopened"); cx.count("reopened")
            elif len(procs) == 1 or y < 0.7:
                # damaged by somebody else, in a process of its own
                dx = drv.Drv(d.variant, timeout=d.timeout)
                n = r.randint(1, 4)
                for _ in range(n):
                    R = dx.call("lmdb", st.path(), r.choice(["flip", "flip", "cut", "grow", "zero", "noise"]), r.randrange(6), r.randrange(1 << 40))
                    if R[0] == b"ok" and int(R[1]): cx.count("entries damaged")
                dx.close(); log.append("damaged %d" % n)
    # everything comes back
    for dd, k, slot in pins: dd.call("cache_release", 0, k, slot)
    if kind == "mmap":
        S = stat(d)
        if S["refcount"] != 0: cx.fail("reference lost", "refcount %d at the end; %r" % (S["refcount"], log))
    if len(vms) and kind != "lmdb" and r.random() < 0.3: # the cache goes first: the VMs are not used any more
        pass
    for dd, slot, *_ in vms: dd.call("vm_free", slot)


def c01(ck):
    ck.rule = "distinct = (kind of cache, template, flags, result) rendered by a VM with a cache"
    ck.build("asan", "asand")
    ck.cases(c01_case, ck.q(1500, 24000), tag="sess")
    ck.cases(c01_case, ck.q(300, 4000), variant="asand", tag="sessd")


# ---------------------------------------------------------------- limits, age, statistics
class Model:
    """what a cache of each kind has to do, fed with what it was asked and what it answered"""
    def __init__(self, kind):
        self.kind = kind
        self.e = {}         # key -> dict(size, ts, text)
        self.age, self.maxn, self.maxs = -1, 0, 0
        self.hits = self.misses = self.coll = 0
        self.pins = 0
        self.now = 0

    def old(self, e): return self.age >= 0 and self.now - e["ts"] >= self.age
    def size(self): return sum(e["size"] for e in self.e.values())
    def over(self): return self.maxs > 0 and self.size() > self.maxs or self.maxn > 0 and len(self.e) > self.maxn

    def gc(self):
        n = 0
        if self.kind == "mmap": return 0
        for k, e in sorted(self.e.items(), key=lambda x: x[1]["ts"]):
            if self.old(e) or self.kind == "simple" and self.over(): del self.e[k]; n += 1
            elif self.kind == "simple": break
        return n


def c02_case(cx, r, i):
    d = cx.d
    kind = KINDS[i % 3]
    with Store() as st:
        try: c02_session(cx, r, kind, st, i)
        finally:
            d.call("clock", -1); d.call("ctx_free", 0); d.call("ctx_free", 1)


def c02_session(cx, r, kind, st, i):
    d = cx.d
    m = Model(kind)
    m.now = 5000000
    log = []
    def clock(dt): m.now += dt; d.call("clock", m.now)
    clock(0)
    d.call("ctx_new", 0); d.call("ctx_new", 1) # the cache and its keys; templates and VM of ours
    d.call("vm", 0, 1, 0); d.call("val", 0, 1, "n", encv({"a": "A"}))
    if kind == "mmap":
        slots = r.choice([1, 2, 3, 8, 64, 512]); size = 4096 * r.choice([3, 4, 6, 10, 30, 100])
        log.append((size, slots)); R = d.call("cache_new", 0, 0, "mmap", size, slots)
    else: R = d.call("cache_new", 0, 0, kind, st.path()); log.append(kind)
    assert R[0] == b"ok", R
    S = stat(d)
    if S["name"] != kind.encode() or any(S[k] for k in ("entries", "hits", "misses", "refcount", "collisions")): cx.fail("a new cache is not empty", repr(S))
    if kind == "mmap" and (S["slots"] != slots or S["total_size"] < size): cx.fail("size of a new cache", "%r of %r" % (S, log))
    twins = {}
    nkeys = r.choice([2, 4, 8, 20, 60])
    keys = ["k%d" % j for j in range(nkeys)]
    if r.random() < 0.6: keys += [x for p in r.sample(collisions.PAIRS, 3) for x in p]
    if r.random() < 0.4:
        for n in (260, 511, 512, 700):
            a, b = xxh3_twins(r, n); keys += [a, b]
            if n >= 511: twins[a] = b; twins[b] = a
    if r.random() < 0.4: keys += ["L" * n for n in (509, 510, 511, 512, 513)] + [b"L" * 509 + b"\0", b"z\0z", b"z\0", b"z", b"z\0y"]
    if kind == "mmap": keys = keys[:]
    keys = [drv.b(k) for k in keys]
    pins = {}          # module slot -> (key, text)
    serial = 0
    free_slots = list(range(10, 40))
    big = r.choice([1, 1, 1, 30, 400]) if kind != "lmdb" else r.choice([1, 1, 30, 400, 3000 if i % 12 == 2 else 10])

    def cfg():
        m.age = r.choice([-1, -1, 0, 5, 20, 100]); m.maxn = r.choice([0, 0, 1, 2, 5, 10]); m.maxs = r.choice([0, 0, 1, 600, 2000, 20000])
        if m.age == 0 and r.random() < 0.7: m.age = 30
        d.call("cache_cfg", 0, m.age, m.maxn, m.maxs); log.append(("cfg", m.age, m.maxn, m.maxs))

    def agree(what):
        S = stat(d); cx.count("statistics compared")
        want = dict(entries=len(m.e), hits=m.hits, misses=m.misses, refcount=m.pins if kind == "mmap" else 0, collisions=m.coll)
        if kind == "simple": want["size"] = m.size()
        bad = {k: (S[k], v) for k, v in want.items() if S[k] != v}
        if bad: cx.fail("statistics of a %s cache" % kind, "after %s: (reported, happened) %r; history %r" % (what, bad, log[-25:])); return False
        if kind == "mmap" and (S["data"] > S["total_data"] or S["entries"] > S["slots"]): cx.fail("more than fits", "%r; %r" % (S, log[-25:])); return False
        return True

    def text(slot, want, what):
        R = d.call("exec", 0, slot, 0, 1)
        if R[0] != b"ok" or R[1] != want:
            cx.fail("%s: wrong entry from a %s cache" % (what, kind), "expected %r got %r; history %r" % (want[:100], [x[:100] for x in R[:4]], log[-25:])); return False
        return True

    def safe_tick(): # never exactly as old as allowed, which could be read either way
        clock(1)
        for _ in range(300):
            if m.age > 0 and any(m.now - e["ts"] == m.age for e in m.e.values()): clock(1)
            else: break

    if r.random() < 0.7: cfg()
    for step in range(r.choice([20, 60, 150])):
        x = r.random()
        k = r.choice(keys)
        if 0.36 <= x < 0.72 and m.e and r.random() < 0.6: k = r.choice(sorted(m.e))
        safe_tick()
        if x < 0.36:
            serial += 1
            body = (b"<%d:" % serial + k[:20].replace(b"\0", b"0").replace(b"{", b"_").replace(b"\n", b"n") + b">" + b"x" * r.choice([0, 0, 10, 100])) * r.choice([1, 1, big])
            if r.random() < 0.3: body = (b"{{a}}%d" % serial) * r.choice([1, 3, big]); want = body.replace(b"{{a}}", b"A")
            else: want = body
            R = d.call("compile", 1, 0 if kind == "simple" else 1, 0, body); assert R[0] == b"ok", R
            size = int(d.call("module", 1, "info")[1])
            wrong = kind != "simple" and r.random() < 0.05 and m.size() + size < 200000
            if wrong: d.call("module", 1, "setver", 1)
            B = stat(d)
            R = d.call("cache_add", 0, k, 1)
            log.append(("add", k[:12], len(k), size, m.now) + (("wrong version",) if wrong else ()))
            cx.ev(); cx.count("%s: added" % kind)
            E = dict(size=size, ts=m.now, text=want, wrong=wrong)
            if kind == "simple":
                if m.over(): n = m.gc(); cx.count("collected by adding", n)
                if k in m.e:
                    if R[0] != b"err": cx.fail("added twice", "%r: %r; %r" % (k, R, log[-25:])); return
                    cx.count("refused: there already")
                else:
                    if R[0] != b"ok": cx.fail("adding failed", "%r: %r; %r" % (k, R, log[-25:])); return
                    m.e[k] = E
            elif kind == "lmdb":
                if R[0] != b"ok": cx.fail("adding failed", "%r: %r; %r" % (k, R, log[-25:])); return
                t = twins.get(k)
                def pop(): # they have one place, if the hash does not tell them apart
                    if t in m.e and stat(d)["entries"] < len(m.e) + (k not in m.e): m.e.pop(t)
                old = m.e.get(k)
                if m.size() + size < 200000: pop(); m.e[k] = E
                else: # there may be no room left in the file, then it goes without
                    d.call("cache_cfg", 0, -1, 0, 0); R = d.call("cache_find", 0, k, 41, 0); d.call("cache_cfg", 0, m.age, m.maxn, m.maxs)
                    if R[0] == b"hit":
                        m.hits += 1; R = d.call("exec", 0, 41, 0, 1); d.call("cache_release", 0, k, 41)
                        if R[1] == want: pop(); m.e[k] = E
                        elif old and R[1] == old["text"]: cx.count("database full")
                        else: cx.fail("wrong entry in a full database", "%r: %r; %r" % (k, R[1][:100], log[-25:])); return
                    else:
                        m.misses += 1
                        if old and not old.get("wrong"): cx.fail("entry lost in a full database", "%r; %r" % (k, log[-25:])); return
                        cx.count("database full")
            else:
                if R[0] != b"ok": cx.fail("adding failed", "%r: %r; %r" % (k, R, log[-25:])); return
                S = stat(d)
                there = k in m.e
                if there: cx.count("there already")
                elif S["collisions"] == B["collisions"] + 1 and S["entries"] == B["entries"]:
                    if not m.e: cx.fail("collision in an empty table", "%r; %r" % (k, log[-25:])); return
                    m.coll += 1; cx.count("collisions")
                elif S["entries"] == B["entries"] + 1: m.e[k] = E
                else:
                    room = B["total_data"] - B["data"]
                    if room > size + len(k) + 300: cx.fail("added but not there", "%r: %d bytes of room for %d; %r; %r" % (k, room, size, S, log[-25:])); return
                    cx.count("full")
                    if m.pins == 0:
                        if S["entries"] or S["data"]: cx.fail("a full cache stays full", "%r; %r" % (S, log[-25:])); return
                        m.e.clear()
                    elif S["entries"] != B["entries"]: cx.fail("entries lost while in use", "%r; %r" % (S, log[-25:])); return
                    else: cx.count("full and in use")
        elif x < 0.72:
            pin = free_slots and r.random() < 0.25
            slot = free_slots[-1] if pin else 41
            rel = 0 if pin else 1
            R = d.call("cache_find", 0, k, slot if kind == "simple" or pin else -1, rel) if kind != "simple" or pin else d.call("cache_find", 0, k, -1, 1)
            log.append(("find", k[:12], len(k), R[0].decode(), m.now, "keep" if pin else ""))
            cx.ev(); cx.count("%s: %s" % (kind, R[0].decode()))
            e = m.e.get(k)
            if R[0] not in (b"hit", b"miss"): cx.fail("find failed", "%r: %r; %r" % (k, R, log[-25:])); return
            hit = R[0] == b"hit"
            want = e is not None and not m.old(e) and not e.get("wrong")
            if hit and e is None: cx.fail("found what is not there", "%r in %s; %r" % (k, kind, log[-25:])); return
            if hit and m.old(e): cx.fail("expired entry found", "%r in %s: %d s old, at most %d; %r" % (k, kind, m.now - e["ts"], m.age, log[-25:])); return
            if hit and e.get("wrong"): cx.fail("entry of another version found", "%r in %s; %r" % (k, kind, log[-25:])); return
            if want and not hit: cx.fail("entry not found", "%r in %s; %r" % (k, kind, log[-25:])); return
            if hit:
                m.hits += 1
                if kind == "simple": e["ts"] = m.now
                if pin:
                    pins[slot] = (k, e["text"]); free_slots.pop(); m.pins += 1
                    if not text(slot, e["text"], "found"): return
                elif r.random() < 0.5 and m.pins < 25:
                    R = d.call("cache_find", 0, k, 41, 0) # once more, to look at it
                    m.hits += 1
                    if R[0] != b"hit": cx.fail("entry not found", "%r, just found; %r" % (k, log[-25:])); return
                    if not text(41, e["text"], "found"): return
                    d.call("cache_release", 0, k, 41)
            else:
                m.misses += 1
                if e is not None and kind != "lmdb": del m.e[k]; cx.count("expired or outdated")
                elif e is not None: cx.count("expired or outdated")
        elif x < 0.80 and pins:
            slot = r.choice(list(pins)); k, want = pins[slot]
            if not text(slot, want, "in use"): return
            cx.count("looked at while in use")
            if r.random() < 0.7:
                d.call("cache_release", 0, k, slot); del pins[slot]; free_slots.append(slot); m.pins -= 1; log.append(("release", k[:12]))
        elif x < 0.86:
            R = d.call("cache_ctl", 0, "gc"); n = m.gc(); log.append(("gc", R[1]))
            cx.ev(); cx.count("%s: collected" % kind, int(R[1]))
            if int(R[1]) != n: cx.fail("collection of a %s cache" % kind, "removed %s, expected %d; history %r" % (R[1], n, log[-25:])); return
            S = stat(d)
            if kind == "simple" and (m.maxn and S["entries"] > m.maxn or m.maxs and S["size"] > m.maxs): cx.fail("limits exceeded after collection", "%r; %r" % (S, log[-25:])); return
        elif x < 0.89:
            d.call("cache_ctl", 0, "reset"); log.append(("reset",)); cx.count("%s: reset" % kind)
            S = stat(d)
            if kind == "mmap" and m.pins:
                if S["entries"] != len(m.e): cx.fail("entries lost while in use", "%r; %r" % (S, log[-25:])); return
            else:
                m.e.clear()
                if S["entries"] or S["data"] and kind == "mmap": cx.fail("reset leaves entries", "%s: %r; %r" % (kind, S, log[-25:])); return
            # counters may start again
            if S["hits"] == 0 and S["misses"] == 0 and kind != "mmap": m.hits = m.misses = 0
            elif S["hits"] == 0 and S["misses"] == 0 and S["collisions"] == 0: m.hits = m.misses = m.coll = 0
        elif x < 0.92: cfg()
        elif x < 0.96: clock(r.choice([1, 3, 8, 30, 120]))
        elif x < 0.975 and kind == "lmdb":
            for slot, (k, _) in list(pins.items()): d.call("cache_release", 0, k, slot); free_slots.append(slot)
            pins.clear(); m.pins = 0
            d.call("cache_free", 0); R = d.call("cache_new", 0, 0, kind, st.path()); d.call("cache_cfg", 0, m.age, m.maxn, m.maxs)
            m.hits = m.misses = 0; log.append(("reopened",)); cx.count("reopened")
        if not agree(log[-1] if log else "start"): return
        cx.seen((kind, len(m.e), m.pins, m.age, m.maxn, m.maxs, x < 0.36, m.size()))
    for slot, (k, want) in list(pins.items()):
        if not text(slot, want, "in use"): return
        d.call("cache_release", 0, k, slot)
    m.pins = 0
    agree("releasing everything")
    d.call("cache_ctl", 0, "reset"); S = stat(d)
    if S["entries"] or S["refcount"]: cx.fail("reset leaves entries", "%s, nothing in use: %r; %r" % (kind, S, log[-25:]))


def c02_memory(cx, r, i):
    """what leaves the in-memory cache is freed; the database and the shared memory take no memory of ours at all"""
    d = cx.d
    kind = KINDS[i % 3]
    with Store() as st:
        try:
            d.call("clock", 100000); d.call("ctx_new", 0)
            assert d.call("cache_new", 0, 0, kind, *(["40960", "16"] if kind == "mmap" else [st.path()]))[0] == b"ok"
            d.call("cache_cfg", 0, r.choice([-1, 50]), r.choice([0, 5]), r.choice([0, 3000]))
            sizes, now, how = [], 100000, r.choice(["reset", "age", "limit"])
            if how == "limit": d.call("cache_cfg", 0, -1, 3, 0)
            if how == "age": d.call("cache_cfg", 0, 50, 0, 0)
            parts = {"p%d" % j: ("{{a}}%d" % j) * r.choice([1, 50]) for j in range(12)}
            src = "".join("{{> p%d}}" % j for j in range(12)) + r.choice(["", "{{> p0}}{{hThrow 1}}"])
            d.call("compile", 0, 0, 0, src); d.call("val", 0, 0, "n", encv({"a": "A"}))
            for cycle in range(8):
                now += 1; d.call("clock", now)
                d.call("vm", 0, 0, 0, "n", encv(parts), "hThrow:throw", "0")
                for _ in range(r.randint(1, 3)): d.call("exec", 0, 0, 0, 1)
                d.call("vm_free", 0)
                if how == "reset": d.call("cache_ctl", 0, "reset")
                else:
                    now += 1000; d.call("clock", now); d.call("cache_ctl", 0, "gc")
                    if how == "limit":
                        d.call("cache_cfg", 0, 0, 0, 0); d.call("cache_ctl", 0, "gc"); d.call("cache_cfg", 0, -1, 3, 0)
                    if stat(d)["entries"] and kind != "mmap": cx.fail("collection leaves entries", "%s %s: %r" % (kind, how, stat(d)))
                R = d.call("blocks", 0); sizes.append((int(R[1]), int(R[2])))
            cx.ev(); cx.seen((kind, how, tuple(sizes))); cx.count("cycles", 8)
            if True:
                b = [x[0] for x in sizes[2:]]
                if b[-1] > b[0]: cx.fail("memory grows", "%s cache emptied by %s: blocks, bytes after each cycle %r" % (kind, how, sizes))
        finally: d.call("clock", -1); d.call("ctx_free", 0)


def c02(ck):
    ck.rule = "distinct = (kind, entries, in use, limits, what was done, bytes held) states in which the statistics were compared"
    ck.build("asan", "asand")
    ck.cases(c02_case, ck.q(900, 15000), tag="model")
    ck.cases(c02_case, ck.q(150, 3000), variant="asand", tag="modeld")
    ck.cases(c02_memory, ck.q(60, 600), tag="mem")


TABLE = {"C01": c01, "C02": c02}
