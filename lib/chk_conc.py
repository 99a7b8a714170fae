"""T01: independent contexts in different threads; C03: shared caches."""
import concurrent.futures, json, os, random, shutil, struct, subprocess, tempfile
import build, drv, tgen, model
from drv import encv, Fn
from chk_safe import scenario, flagset, mutate, req, yaml_of, plain_data, loader_tree, BAD_RUN, BAD_COMPILE, BAD_SYNTAX, MORE_PARTIALS


def frame(args):
    body = b"".join(struct.pack("<I", len(a)) + a for a in map(drv.b, args))
    return struct.pack("<I", len(body)) + body


def unframe(raw):
    out, o = [], 0
    while o < len(raw):
        n = struct.unpack_from("<I", raw, o)[0]; o += 4
        e = o + n; one = []
        while o < e:
            l = struct.unpack_from("<I", raw, o)[0]; o += 4
            one.append(raw[o:o + l]); o += l
        out.append(one)
    return out


def t01_list(r, dirs, st, tid):
    """what one thread does: requests that stand on their own"""
    out = []
    for _ in range(r.randint(2, 6)):
        x = r.random()
        src, ps, data, h = scenario(r, 2, 3)
        f = flagset(r)
        if x < 0.35:
            if r.random() < 0.2: src = mutate(r, src)
            elif r.random() < 0.2: src = r.choice(BAD_RUN + BAD_COMPILE + BAD_SYNTAX)
            ps = dict(ps, **MORE_PARTIALS); h = dict(h, hThrow="throw")
            y = r.random()
            if y < 0.4: out.append(["render"] + req(src, ps, data, h, f, extra=(["c", "simple"] if r.random() < 0.5 else []) + ["log", "1"]))
            elif y < 0.7: out.append(["render"] + req(src, ps, json.dumps(plain_data(data)).encode(), h, f, df="j", extra=["log", "1"]))
            else: out.append(["render"] + req(src, ps, drv.b(yaml_of(plain_data(data), r)), h, f, df="y"))
            if r.random() < 0.15: out.append(["render"] + req(src, ps, r.choice([b"{", b"[1,", b"- a\n b: {", b"\xff"]), h, f, df=r.choice("jy")))
        elif x < 0.5:
            if r.random() < 0.3: src = mutate(r, src)
            for w in r.sample(["ast", "astsrc", "parse", "opcodes", "compile", "lex", "opcodesloc"], 3): out.append(["front", w, f, src])
        elif x < 0.62:
            out += [["ctx_new", 0], ["compile", 0, 0, f, src], ["val", 0, 0, "n", encv(data)], ["vm", 0, 0, f, "n", encv(ps), ",".join("%s:%s" % kv for kv in h.items()), ""]]
            out += [["module", 0, "copyts", 0], ["module", 0, "norm", 16]]
            out += [["exec", 0, 0, 0, r.choice([0, 1])]] * 2
            out += [["enc", 0], ["ctx_free", 0]]
        elif x < 0.85:
            kind = r.choice(["simple", "mmap", "lmdb"])
            a = {"simple": [], "mmap": [4096 * r.choice([3, 10]), r.choice([1, 16])], "lmdb": [os.path.join(st, "t%d.db" % tid)]}[kind]
            ps = dict(ps, **MORE_PARTIALS)
            out += [["ctx_new", 0], ["compile", 0, 0, f, src], ["val", 0, 0, "n", encv(data)], ["cache_new", 0, 0, kind] + a]
            if kind == "lmdb": out += [["cache_ctl", 0, "reset"]]
            out += [["vm", 0, 0, f, "n", encv(ps), ",".join("%s:%s" % kv for kv in dict(h, hThrow="throw").items()), "0"]]
            for _ in range(r.randint(1, 4)): out += [["exec", 0, 0, 0, r.choice([0, 1])], ["cache_ctl", 0, r.choice(["gc", "reset", "gc"])]]
            out += [["ctx_free", 0]]
        elif dirs and r.random() < 0.8:
            out.append(["render", "t", b"".join(b"{{> %s}}" % n.encode() for n in r.sample(["a", "b", "sub/c", "a", "b"] + ["d"] * (r.random() < 0.1), 3)), "d", encv(data), "df", "n", "pf", "l", "p", dirs + "\0.hbs", "f", str(f)])
        else: out.append(["render"] + req(b"{{#each items}}{{@index}}{{/each}}" * 3, {}, {"items": list(range(50))}, {}, 0))
    return out


def strip(R):
    """without the amount of memory in use, which depends on what the thread did before"""
    return R[:R.index(b"blocks")] if b"blocks" in R else R


def t01_case(cx, r, i):
    d = cx.d
    n = r.choice([2, 3, 4, 8])
    st = tempfile.mkdtemp(prefix="hbst")
    try:
        d.call("clock", 777777)
        same = r.random() < 0.3
        lists = [t01_list(random.Random(r.random()), cx.loader_dir if getattr(cx, "loader_dir", None) else None, st, t) for t in range(n)]
        if same: lists = [[[st + "/t%d.db" % t if isinstance(a, str) and a.endswith(".db") else a for a in q] for q in lists[0]] for t in range(n)]
        want = []
        for l in lists: want.append([strip(d.call(*q)) for q in l])
        rounds = r.choice([2, 4, 10])
        R = d.call("par", rounds, *[b"".join(frame(q) for q in l) for l in lists], timeout=cx.d.timeout * 3)
        for t in range(n):
            first, differ, other = R[3 * t:3 * t + 3]
            got = [strip(x) for x in unframe(first)]
            cx.ev(len(got)); cx.count("requests in threads", len(got) * rounds)
            for q, a, w in zip(lists[t], got, want[t]):
                cx.seen((q[0], str(q[-2:])[:200], tuple(x[:60] for x in a[:2])))
                if a != w: cx.fail("result in a thread differs", "%r\n alone %r\nthread %r" % ([str(x)[:1500] for x in q], w[:4], a[:4])); return
            if len(got) != len(want[t]): cx.fail("requests lost", "%d %d" % (len(got), len(want[t])))
            if int(differ):
                for q, a, w in zip(lists[t], [strip(x) for x in unframe(other)], want[t]):
                    if a != w: cx.fail("result in a thread differs", "%r\n alone %r\nthread %r" % ([str(x)[:1500] for x in q], w[:4], a[:4])); return
        cx.count("threads", n)
    finally:
        if d.p: d.call("clock", -1)
        shutil.rmtree(st, ignore_errors=True)


def t01(ck):
    ck.rule = "distinct = (operation, input, result) of requests run by two or more threads at once"
    ck.build("tsan", "asan")
    import chk_safe
    dr = loader_tree()
    try:
        ck.cases(chk_safe.with_loader(t01_case, dr), ck.q(350, 6000), variant="tsan", workers=5, tag="par", timeout=100)
        ck.cases(chk_safe.with_loader(t01_case, dr), ck.q(350, 6000), variant="asan", workers=4, tag="para", timeout=100)
    finally: shutil.rmtree(dr, ignore_errors=True)


CONC = {"conc": (["conc.c"], ["-Wl,--wrap=time,--wrap=usleep,--wrap=pthread_spin_lock,--wrap=pthread_spin_unlock,--wrap=mprotect"])}


def c03_config(r, tsan):
    """one run of harness/conc.c: mode seed workers ops keys size slots age profile file intensity"""
    mode = "thread" if tsan else r.choice(["proc", "proc", "thread", "thread", "db", "dbkill"])
    prof = r.choice(["mix", "mix", "pure", "stable", "reset", "hold"])
    keys = r.choice([2, 5, 20, 40])
    slots = r.choice([1, 4, 64, 1024])
    size = r.choice([1 << 20, 1 << 18, 1 << 16]) if prof != "stable" else 1 << 22
    if slots > 1000: size = max(size, 1 << 18)
    w = r.choice([2, 3, 4, 8]) if tsan else r.choice([2, 4, 8, 12])
    ops = r.choice([200, 500]) if tsan else r.choice([1000, 3000])
    age = r.choice([-1, -1, 0, 5, 30]) if prof in ("mix", "reset", "hold") else -1
    if mode == "db": ops //= 4; w = r.choice([2, 6, 12, 40, 140])
    if w > 12: ops = min(ops, 150)
    if mode == "dbkill": ops = r.choice([40, 150]); w = r.choice([4, 8, 20])
    if mode in ("db", "dbkill") and prof in ("pure", "stable"): prof = "mix"
    return [mode, r.randint(1, 10 ** 9), w, ops, keys, size, slots, age, prof, "", r.choice([0, 3, 20, 100])]


def c03_run(conf, tsan):
    st = tempfile.mkdtemp(prefix="hbsq")
    try:
        a = [str(x) for x in conf]; a[9] = st + "/db"
        env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=1 history_size=4 report_signal_unsafe=0")
        p = subprocess.Popen([build.BUILD + "/" + ("tsanc" if tsan else "conc") + "/conc"] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True, cwd=st)
        try: out, err = p.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate(); return conf, {}, b"", [], "slow"
        seen, pairs, fails = {}, b"", []
        for l in out.decode("utf8", "replace").splitlines():
            if l.startswith("FAIL "): fails.append(l[5:])
            elif l.startswith("pairs "): pairs = bytes.fromhex(l[6:])
            elif " " in l:
                k, _, v = l.rpartition(" ")
                if v.isdigit(): seen[k] = int(v)
        err = err.decode("utf8", "replace")
        if "WARNING: ThreadSanitizer" in err: fails.append("data race: " + err[err.index("WARNING: ThreadSanitizer"):][:3000])
        elif p.returncode == 4: return conf, seen, pairs, [], "slow"
        elif p.returncode != 0 and not fails: fails.append("crash: ended with %d %s" % (p.returncode, err[-1500:]))
        return conf, seen, pairs, fails, "done"
    finally:
        shutil.rmtree(st, ignore_errors=True)


def c03(ck):
    ck.rule = ("distinct = (build, code point of one user, code point another user reached right after it) inside the caches' code, "
               "plus (mode, profile, whether there were hits, misses, resets, collisions, held entries) of whole runs")
    ck.assumptions += ["a process that is killed while it holds the shared memory cache's lock is not covered (only database files survive that)",
                       "gc and reset of a database may report a full map while others read", "each process opens the database file once"]
    for v in ("conc", "tsanc"): build.ensure(v, CONC)
    r = random.Random(ck.seed * 7919 + 3)
    jobs = [(c03_config(r, False), False) for _ in range(ck.q(170, 2600))] + [(c03_config(r, True), True) for _ in range(ck.q(130, 1600))]
    r.shuffle(jobs)
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for (conf, seen, pairs, fails, how), (_, tsan) in zip(ex.map(lambda j: c03_run(*j), jobs), jobs):
            ck.evals += seen.get("operations", 0)
            ck.counters["runs " + conf[0] + (" tsan" if tsan else "")] += 1
            if how == "slow": ck.counters["runs cut short"] += 1
            for k, v in seen.items(): ck.counters[k] += v
            for i, x in enumerate(pairs):
                while x:
                    b = x & -x; x ^= b
                    ck.distinct.add((tsan, i * 8 + b.bit_length()))
            ck.distinct.add((conf[0], conf[8], tsan) + tuple(bool(seen.get(k)) for k in ("hits", "misses", "resets", "collisions", "held", "refused")))
            if len(ck.samples) < 20: ck.samples.append("%s%s -> %s" % (" ".join(map(str, conf)), " tsan" if tsan else "", {k: v for k, v in seen.items() if v}))
            for f in fails:
                ck.violation(conf[0] + " " + f.split(":")[0], "%s: %s" % (" ".join(map(str, conf)), f), {"program": ("tsanc" if tsan else "conc") + "/conc", "args": conf})


TABLE = {"T01": t01, "C03": c03}
