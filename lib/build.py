"""Builds instrumented variants of the code in /repo's working tree, outside /repo.

A variant is (compiler, flags).  Sources are mirrored from /repo/src (+bin, +vendor); generated
sources (flex/bison/re2c/gperf) are regenerated in the mirror when their inputs differ from the
pinned ones, exactly like /opt/vp/build.sh does.  Builds are cached by a hash of everything read.
"""
import os, re, sys, hashlib, subprocess, shutil, fcntl, glob, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HBS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CONF = os.path.join(VERIF, "config")

COMMON = ["-DHAVE_CONFIG_H", "-fno-strict-aliasing", "-pthread", "-I/usr/include/json-c", "-w"]
LIBS = ["-ltalloc", "-ljson-c", "-lyaml", "-llmdb", "-lpthread", "-lrt", "-lm"]

SAN_UB = ("-fsanitize=undefined,float-cast-overflow -fno-sanitize=alignment,vla-bound,function "
          "-fno-sanitize-recover=undefined,float-cast-overflow").split()
VARIANTS = {
    # the configuration that ships (asserts compiled out by config.h's NDEBUG), under ASan + UBSan
    "asan": dict(cc="clang", flags=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] + SAN_UB),
    # the same, with the code's own assertions compiled in as extra monitors
    "asand": dict(cc="clang", flags=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] + SAN_UB, debug=True),
    "tsan": dict(cc="clang", flags=["-g", "-O0", "-fno-omit-frame-pointer", "-fsanitize=thread"]),
    # what /opt/vp/build.sh builds
    "plain": dict(cc="gcc", flags=["-g", "-O2"]),
    "vg": dict(cc="gcc", flags=["-g", "-O1"]),
    # every basic block, load and store of the shared caches calls back, so that a harness can hold up a thread there
    "conc": dict(cc="clang", flags=["-g", "-O1", "-fno-omit-frame-pointer"], cov=["handlebars_cache_mmap.c", "handlebars_cache_lmdb.c"]),
    "tsanc": dict(cc="clang", flags=["-g", "-O0", "-fno-omit-frame-pointer", "-fsanitize=thread"], cov=["handlebars_cache_mmap.c"]),
    "fuzz": dict(cc="clang", flags=["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,fuzzer-no-link"] + SAN_UB),
}


def _flexflags():
    """the defaults in configure.ac"""
    try: m = re.search(r'\[FLEXFLAGS="([^"]*)"\]', open(os.path.join(REPO, "configure.ac")).read())
    except OSError: m = None
    return m.group(1).split() if m else ["--noreject", "--full", "--align"]


# sha256 over the inputs at the pinned commit -> use the tracked outputs
GEN = {
    "lex": (["handlebars.l"], ["handlebars.lex.c", "handlebars.lex.h"],
            ["flex"] + _flexflags() + ["-o", "handlebars.lex.c", "handlebars.l"]),
    "tab": (["handlebars.y", "handlebars.l"], ["handlebars.tab.c", "handlebars.tab.h"],
            ["bison", "-Wall", "-b", "handlebars", "handlebars.y"]),
    "re": (["handlebars_scanners.re"], ["handlebars_scanners.c"],
           ["re2c", "--no-generation-date", "-s8", "-o", "handlebars_scanners.c", "handlebars_scanners.re"]),
    "gperf": (["handlebars_helpers_ht.gperf"], ["handlebars_helpers_ht.h"],
              ["gperf", "--struct-type", "--readonly-tables", "--compare-strncmp", "--compare-lengths",
               "--global-table", "--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"]),
}
PINNED = os.path.join(CONF, "generator_inputs.sha256")


class BuildError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def gen_hashes():
    return {k: _sha([os.path.join(REPO, "src", i) for i in v[0]]) for k, v in GEN.items()}


def _sources():
    out = []
    for d, pats in (("src", ("*.c", "*.h", "*.l", "*.y", "*.re", "*.gperf")), ("bin", ("*.c",)),
                    ("vendor/sort_r", ("*.h",)), ("vendor/xxhash", ("*.h",))):
        for p in pats:
            out += glob.glob(os.path.join(REPO, d, p))
    return sorted(p for p in out if os.path.basename(p) != "handlebars_config.h")


def tree_hash():
    h = hashlib.sha256()
    for p in _sources() + sorted(glob.glob(CONF + "/*")):
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _run(cmd, cwd, log):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("latin1")[-4000:]))


def _mirror(dst):
    for p in _sources():
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)
    shutil.copyfile(CONF + "/config.h", dst + "/config.h")
    shutil.copyfile(CONF + "/handlebars_config.h", dst + "/src/handlebars_config.h")
    pinned = dict(l.split() for l in open(PINNED))
    now = gen_hashes()
    for k, (ins, outs, cmd) in GEN.items():
        if pinned.get(k) != now[k]:
            _run(cmd, dst + "/src", None)


def ensure(variant, harness=None):
    """Returns the directory with lib.a, handlebarsc and (when given) the harness executables.

    harness: dict name -> (list of C sources relative to /verif/harness, extra flags)
    """
    os.makedirs(BUILD, exist_ok=True)
    spec = VARIANTS[variant]
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        th = tree_hash()
        key = hashlib.sha256((th + repr(spec) + repr(COMMON)).encode()).hexdigest()
        d = os.path.join(BUILD, variant)
        stamp = os.path.join(d, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            _mirror(d)
            if tree_hash() != th:
                raise BuildError("source tree changed during the build")
            if spec.get("debug"):
                s = open(d + "/config.h").read().replace("#define NDEBUG 1", "/* NDEBUG off */")
                open(d + "/config.h", "w").write(s)
            inc = ["-I" + d, "-I" + d + "/src", "-I" + d + "/vendor/sort_r", "-I" + d + "/vendor/xxhash"]
            srcs = [p for p in glob.glob(d + "/src/*.c")]
            jobs = []
            for s in srcs + [d + "/bin/handlebarsc.c"]:
                o = s[:-2] + ".o"
                cov = ["-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores"] if os.path.basename(s) in spec.get("cov", ()) else []
                jobs.append([spec["cc"]] + spec["flags"] + cov + COMMON + inc + ["-c", s, "-o", o])
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for f in [ex.submit(_run, j, d, None) for j in jobs]:
                    f.result()
            _run(["ar", "rcs", d + "/libhbs.a"] + [s[:-2] + ".o" for s in srcs], d, None)
            if "fuzzer-no-link" not in " ".join(spec["flags"]) and not spec.get("cov"):
                _run([spec["cc"]] + spec["flags"] + [d + "/bin/handlebarsc.o", d + "/libhbs.a", "-o", d + "/handlebarsc"] + LIBS, d, None)
            open(stamp, "w").write(key)
        for name, (hs, extra) in (harness or {}).items():
            paths = [os.path.join(VERIF, "harness", h) for h in hs]
            hk = hashlib.sha256((key + _sha(paths + sorted(glob.glob(VERIF + "/harness/*.h"))) + repr(extra)).encode()).hexdigest()
            hstamp = os.path.join(d, name + ".hstamp")
            if os.path.exists(hstamp) and open(hstamp).read() == hk:
                continue
            inc = ["-I" + d, "-I" + d + "/src", "-I" + d + "/vendor/sort_r", "-I" + d + "/vendor/xxhash"]
            _run([spec["cc"]] + spec["flags"] + COMMON + inc + extra + paths + [d + "/libhbs.a", "-o", os.path.join(d, name)] + LIBS, d, None)
            open(hstamp, "w").write(hk)
        return d


if __name__ == "__main__":
    if sys.argv[1] == "--pin":
        with open(PINNED, "w") as f:
            for k, v in gen_hashes().items():
                f.write("%s %s\n" % (k, v))
    else:
        for v in sys.argv[1:]:
            print(ensure(v))
