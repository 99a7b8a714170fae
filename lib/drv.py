"""Talks to harness/hbsdrv (the real library behind a framed protocol) and watches it for crashes."""
import os, re, select, struct, subprocess, sys, tempfile, time, json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

HARNESS = {"hbsdrv": (["hbsdrv.c"], ["-Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=usleep"])}

# compile flags (handlebars_compiler.h)
F = dict(use_depths=1 << 0, string_params=1 << 1, track_ids=1 << 2, use_partial=1 << 3)


class Safe(str):
    """a string carrying the safe-string flag"""


class Fn(str):
    """a callable implemented by the driver"""


class Crash(Exception):
    def __init__(self, kind, text, request):
        Exception.__init__(self, kind)
        self.kind, self.text, self.request = kind, text, request


class DriverError(Exception):
    pass


def b(x):
    return x if isinstance(x, bytes) else str(x).encode("utf-8", "surrogateescape")


def encv(v):
    if v is None: return b"N"
    if v is True: return b"T"
    if v is False: return b"F"
    if isinstance(v, int): return b"I%d;" % v
    if isinstance(v, float): return b"D%s;" % repr(v).encode()
    if isinstance(v, Fn): return b"L%s;" % b(v)
    if isinstance(v, Safe):
        t = b(v); return b"s%d:%s" % (len(t), t)
    if isinstance(v, (str, bytes)):
        t = b(v); return b"S%d:%s" % (len(t), t)
    if isinstance(v, (list, tuple)): return b"[" + b"".join(encv(x) for x in v) + b"]"
    if isinstance(v, dict):
        return b"{" + b"".join(b"S%d:%s%s" % (len(b(k)), b(k), encv(x)) for k, x in v.items()) + b"}"
    raise TypeError(repr(v))


ASAN_OPTIONS = ("abort_on_error=0:exitcode=99:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                "handle_abort=1:symbolize=1:print_summary=1:max_allocation_size_mb=2048:fast_unwind_on_malloc=1:"
                "malloc_context_size=12:detect_odr_violation=0")


def san_env(leaks=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN_OPTIONS % (1 if leaks else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:second_deadlock_stack=1"
    e["LSAN_OPTIONS"] = "print_suppressions=0"
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    return e


_frame = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def classify(rc, err):
    """a stable name for what the sanitizers / the OS said: kind@first frame inside the library"""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: kind = "asan:" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", err)
    if not kind and m2: kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60]
    if not kind and "ThreadSanitizer" in err:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err); kind = "tsan:" + (m.group(1).strip() if m else "?")
    if not kind and "LeakSanitizer" in err: kind = "lsan"
    if not kind:
        kind = "signal:%d" % -rc if rc is not None and rc < 0 else "exit:%s" % rc
    fn = "?"
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Source and dest|Jump to|Process terminating|Mismatched|Argument)[^\n]*)", err)
    if m:
        kind = "valgrind:" + re.sub(r"\d+", "N", m.group(1))[:50]
        m = re.search(r"(?:at|by) 0x[0-9A-F]+: (handlebars\w+|hbs\w+) ", err[m.end():])
        if m: fn = m.group(1)
    for f, loc in _frame.findall(err):
        if "/src/" in loc and "compiler-rt" not in loc:
            fn = f; break
    m = re.search(r"(Assertion `[^']*' failed)", err)
    if m: fn = m.group(1)
    m = re.search(r"(Nested map iteration|MONITOR: [^\n]*|was not destructed|Unsupported value comparison|talloc abort[^\n]*|Bad talloc magic[^\n]*)", err)
    if m: fn = m.group(1)[:60]
    return "%s@%s" % (kind, fn)


class Drv:
    def __init__(self, variant="asan", timeout=30, leaks=False, env=None):
        self.variant, self.timeout, self.leaks = variant, timeout, leaks
        self.xenv = env or {}
        self.exe = os.path.join(build.BUILD, variant, "hbsdrv")
        self.p = None
        self.ncalls = 0
        self.log = []

    def start(self):
        self.err = tempfile.TemporaryFile()
        e = san_env(self.leaks); e.update(self.xenv)
        cmd = [self.exe]
        if self.variant == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--max-stackframe=8000000", "--num-callers=15", self.exe]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, bufsize=0)

    def stderr_text(self):
        self.err.seek(0); t = self.err.read()
        m = re.findall(rb"@k=(\d+)", t) # how far an allocation failure sweep got
        if m: self.mark = int(m[-1])
        return t[-20000:].decode("latin1")

    def close(self):
        """ends the driver; returns (rc, stderr)"""
        if not self.p: return 0, ""
        try: self.p.stdin.close()
        except OSError: pass
        try: rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill(); rc = self.p.wait()
        t = self.stderr_text()
        self.p.stdout.close(); self.err.close(); self.p = None
        return rc, t

    def kill(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p.stdin.close(); self.p.stdout.close(); self.err.close(); self.p = None

    def _read(self, n, deadline):
        out = bytearray()
        fd = self.p.stdout.fileno()
        while len(out) < n:
            left = deadline - time.time()
            if left <= 0: raise TimeoutError
            r, _, _ = select.select([fd], [], [], left)
            if not r: raise TimeoutError
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c: raise EOFError
            out += c
        return bytes(out)

    def call(self, *args, timeout=None):
        if not self.p:
            self.start(); self.log = []
        req = [b(a) for a in args]
        body = b"".join(struct.pack("<I", len(a)) + a for a in req)
        self.ncalls += 1
        self.log.append(req)
        if len(self.log) > 400: del self.log[:200]
        try:
            self.err.seek(0, 2)
            data = struct.pack("<I", len(body)) + body
            mv = memoryview(data)
            while len(mv): mv = mv[self.p.stdin.write(mv):]
            deadline = time.time() + (timeout or self.timeout)
            n = struct.unpack("<I", self._read(4, deadline))[0]
            raw = self._read(n, deadline)
        except TimeoutError:
            self.kill()
            raise Crash("hang", "no reply within %ss" % (timeout or self.timeout), req)
        except (EOFError, BrokenPipeError):
            try: rc = self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill(); rc = self.p.wait()
            t = self.stderr_text()
            self.kill_fds()
            if "DRIVER-ERROR" in t and rc == 97: raise DriverError(t[-2000:] + repr(req)[:500])
            raise Crash(classify(rc, t), t[-6000:], req)
        out, o = [], 0
        while o < len(raw):
            l = struct.unpack_from("<I", raw, o)[0]; o += 4
            out.append(raw[o:o + l]); o += l
        return out

    def kill_fds(self):
        try: self.p.stdin.close()
        except OSError: pass
        self.p.stdout.close(); self.err.close(); self.p = None

    # -- conveniences
    def render(self, tmpl, data=None, df="n", timeout=None, **kw):
        """-> Result"""
        a = ["render", "t", b(tmpl)]
        if df == "n": a += ["d", encv(data), "df", "n"]
        elif df: a += ["d", data, "df", df]
        for k, v in kw.items():
            if v is None: continue
            if k == "p": a += ["p", encv(v), "pf", "n"]
            elif k == "praw": a += ["p", v[1], "pf", v[0]]
            elif k == "h": a += ["h", ",".join("%s:%s" % i for i in v.items())]
            elif k == "dd": a += ["dd", encv(v)]
            else: a += [k, v]
        r = self.call(*a, timeout=timeout)
        return Result(r)


class Result:
    def __init__(self, r):
        self.ok = r[0] == b"ok"
        self.raw = r
        if self.ok:
            self.out, i = r[1], 2
            self.err = None
        else:
            self.out = None
            self.err, self.msg, self.loc, self.full = int(r[1]), r[2], tuple(int(x) for x in r[3].split(b",")), r[4]
            i = 5
        self.ev = self.after = None
        while i + 1 < len(r):
            if r[i] == b"ev": self.ev = r[i + 1]
            if r[i] == b"after": self.after = r[i + 1]
            i += 2

    def key(self):
        return (self.ok, self.out) if self.ok else (False, self.err, self.msg, self.loc)

    def __repr__(self):
        return "ok:%r" % (self.out,) if self.ok else "error %d: %r %r" % (self.err, self.msg, self.loc)
