"""Building the driver from /repo, running cases, validating what happened with TLC."""
import ctypes, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed: neither pass nor violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="argv-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ------------------------------------------------------------------ building
SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-4000:]))
    return r.stdout


def build(variant="std"):
    """variant: std | long (ARG_LONG_ONLY) | amalg (the single-file distribution)"""
    d = os.path.join(scratch(), variant)
    if os.path.exists(os.path.join(d, "driver")):
        return os.path.join(d, "driver")
    os.makedirs(d, exist_ok=True)
    inc = os.path.join(REPO, "src")
    drv = os.path.join(VERIF, "harness", "driver.c")
    defs = []
    if variant == "amalg":
        src = os.path.join(d, "amalg")
        os.makedirs(src)
        for x in ("src", "tools", "tests", "examples"):
            if os.path.isdir(os.path.join(REPO, x)):
                shutil.copytree(os.path.join(REPO, x), os.path.join(src, x), symlinks=True)
        for x in ("LICENSE", "README.md"):
            if os.path.exists(os.path.join(REPO, x)):
                shutil.copy(os.path.join(REPO, x), src)
        sh(["bash", "build", "dist"], cwd=os.path.join(src, "tools"))
        inc = os.path.join(src, "dist")
        files = [os.path.join(inc, "argtable3.c")]
        defs = ["-DDRV_AMALG"]
    else:
        files = sorted(glob.glob(os.path.join(inc, "*.c")))
    cflags = ["-D_XOPEN_SOURCE=700", "-w"] + SAN + (["-DARG_LONG_ONLY"] if variant == "long" else [])

    def compile_(f):
        o = ["-I" + inc, "-c", f, "-o", os.path.join(d, os.path.basename(f)[:-2] + ".o")]
        try:
            sh(["gcc", "-std=c89"] + cflags + o)
        except ToolError:
            sh(["gcc", "-std=gnu11"] + cflags + o)

    def compile_drv(f):
        sh(["gcc", "-std=gnu99", "-D_GNU_SOURCE", "-w"] + SAN + defs + ["-I" + inc, "-c", f, "-o", os.path.join(d, "drv.o")])
    with ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(compile_drv, drv)] + [ex.submit(compile_, f) for f in files]
        for f in fs:
            f.result()
    sh(["gcc"] + SAN + [WRAP, "-o", os.path.join(d, "driver")] + sorted(glob.glob(os.path.join(d, "*.o"))) + ["-lm"])
    return os.path.join(d, "driver")


# --------------------------------------------------------------------- cases
def hx(b):
    return "-" if b is None else "=" + b.hex()


def opt(b):
    return [] if b is None else [list(b)]


_libc = ctypes.CDLL(None)
_libc.strtod.restype = ctypes.c_double
_libc.strtod.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


def dbits(b):
    v = struct.unpack("<Q", struct.pack("<d", _libc.strtod(b, None)))[0]
    return [v >> 48, v >> 32 & 0xFFFF, v >> 16 & 0xFFFF, v & 0xFFFF]


class Case:
    """A sequence of calls: the driver's lines, and the same calls as events of the specification."""

    def __init__(self, note="", fork=False):
        self.note, self.fork = note, fork
        self.lines, self.ev, self.hasobs = [], [], []
        self.dtab, self.nt, self.np = {}, 0, 0

    def op(self, line, ev, obs=True):
        self.lines.append(line)
        self.ev.append(ev)
        self.hasobs.append(obs)

    # --- tables
    def table(self, ents, cap=20):
        t = self.nt
        self.nt += 1
        self.lines.append("T")
        for e in ents:
            self.lines.append("E %s %s %s %s %s %d %d %d %s %d %s" % (
                e["k"], hx(e["sh"]), hx(e["lo"]), hx(e["dt"]), hx(e["gl"]), e["mn"], e["mx"], 1 if e["opt"] else 0, hx(e["aux"]), e["fl"], e["ct"]) +
                ("" if e.get("cb") is None else " %s %d %d %s" % (hx(e["cb"]), 1 if e["hv"] else 0, e["ck"], " ".join(map(str, e["sc"])))))
        self.lines.append("E e - - - - 0 %d 0 - 0 n" % cap)
        self.dtab[t] = any(e["k"] == "d" for e in ents)
        je = [dict({} if e.get("cb") is None else dict(cb=list(e["cb"]), hv=bool(e["hv"]), ck=e["ck"], sc=list(e["sc"])), k=e["k"], sh=opt(e["sh"]), lo=opt(e["lo"]), dt=opt(e["dt"]), gl=opt(e["gl"]), mn=e["mn"], mx=e["mx"],
                   opt=bool(e["opt"]), aux=opt(e["aux"]), fl=e["fl"], ct=e["ct"]) for e in ents]
        self.op("tdone", {"o": "tdone", "ents": je, "cap": cap})
        return t

    def env(self, v):
        self.op("env %d" % v, {"o": "env", "v": v}, False)

    def parse(self, t, argv):
        assert all(b"\0" not in a for a in argv)
        dv = []
        if self.dtab[t]:
            dv = [[dbits(a[i:]) for i in range(len(a) + 1)] for a in argv]
        self.np += 1
        self.op("parse %d %d %s" % (t, len(argv), " ".join(hx(a) for a in argv)),
                {"o": "parse", "t": t, "argv": [list(a) for a in argv], "dv": dv})

    # --- getopt called directly
    def gopen(self, how, ss, ls, err, oi, argv, reset=1):
        """ls: (name, has_arg, variable or 0, value)"""
        self.op("gopen %d %s %d %d %d %d %s %d %s" % (how, hx(ss), err, oi, reset, len(ls), " ".join("%s %d %d %d" % (hx(n), ha, f, v) for n, ha, f, v in ls), len(argv), " ".join(map(hx, argv))),
                {"o": "gopen", "how": how, "ss": opt(ss), "err": err, "oi": oi, "ls": [dict(n=list(n), ha=ha, f=f, v=v) for n, ha, f, v in ls], "argv": [list(a) for a in argv]}, False)

    def gcall(self, n=1):
        for _ in range(n):
            self.op("gcall", {"o": "gcall"})

    def preset(self, t, e, i, kind, v):
        if kind == "i":
            m = abs(v)
            self.op("preset %d %d %d %d" % (t, e, i, v), {"o": "preset", "t": t, "e": e, "i": i, "v": [1 if v < 0 else 0, m >> 16, m & 0xFFFF]})
        elif kind == "d":
            b = struct.unpack("<Q", struct.pack("<d", v))[0]
            self.op("preset %d %d %d %x" % (t, e, i, b), {"o": "preset", "t": t, "e": e, "i": i,
                                                       "v": [b >> 48, b >> 32 & 0xFFFF, b >> 16 & 0xFFFF, b & 0xFFFF]})
        elif kind in "sr":
            self.op("preset %d %d %d %s" % (t, e, i, hx(v)), {"o": "preset", "t": t, "e": e, "i": i, "v": {"b": list(v), "w": [0, 0, 0]}})
        elif kind == "f":
            self.op("preset %d %d %d %s" % (t, e, i, " ".join(map(hx, v))),
                    {"o": "preset", "t": t, "e": e, "i": i, "v": [{"b": list(x), "w": [0, 0, 0]} for x in v]})
        elif kind == "t":
            self.op("preset %d %d %d %s" % (t, e, i, " ".join(map(str, v))), {"o": "preset", "t": t, "e": e, "i": i, "v": list(v)})

    def tables(self):
        self.op("tables", {"o": "tables"})

    def errors(self, t, prog):
        self.op("errors %d %s" % (t, hx(prog)), {"o": "errors", "t": t, "prog": opt(prog)})

    def text(self, op, t, sx):
        self.op("%s %d %s" % (op, t, hx(sx)), {"o": op, "t": t, "sx": opt(sx)})

    def gnu(self, t):
        self.op("gnu %d" % t, {"o": "gnu", "t": t})

    def option(self, sh_, lo, dt, sx):
        self.op("option %s %s %s %s" % (hx(sh_), hx(lo), hx(dt), hx(sx)),
                {"o": "option", "sh": opt(sh_), "lo": opt(lo), "dt": opt(dt), "sx": opt(sx)})

    def formatted(self, lm, rm, s):
        self.op("formatted %d %d %s" % (lm, rm, hx(s)), {"o": "formatted", "lm": lm, "rm": rm, "s": list(s)})

    def freetable(self, t, last, holes=(), split=None):
        """holes: slots the caller empties first; split: release the first so many entries, then the others"""
        self.op("freetable %d%s%s" % (t, "".join(" %d" % h for h in holes), "" if split is None else " /%d" % split), {"o": "freetable", "last": last})

    def argfree(self, t, last, holes=()):
        """holes, in order: slots the caller empties first"""
        self.op("argfree %d%s" % (t, "".join(" %d" % h for h in holes)), {"o": "argfree", "last": last})

    def nullcheck(self, t, holes):
        self.op("nullcheck %d %s" % (t, " ".join(map(str, holes))), {"o": "nullcheck", "holes": list(holes)})

    def freeall(self):
        for t in range(self.nt):
            self.freetable(t, t == self.nt - 1)

    def faults(self, mode, line):
        """what happens if an allocation made by this call fails? (leaves no trace in the case itself)"""
        self.op("faults %s %s" % (mode, line), {"o": "faults", "m": mode})

    # --- messages, registry
    def modname(self, s):
        self.op("modname " + hx(s), {"o": "modname", "s": list(s)})

    def modver(self, a, b, c, s):
        self.op("modver %d %d %d %s" % (a, b, c, hx(s)), {"o": "modver", "v": [a, b, c], "s": list(s)})

    def gethelp(self):
        self.op("gethelp", {"o": "gethelp"})

    def help(self, t, name):
        self.op("help %d %s" % (t, hx(name)), {"o": "help", "t": t, "name": list(name)})

    def synerr(self, t):
        self.op("synerr %d" % t, {"o": "synerr", "t": t})

    def synhelp(self, t, name, h, n):
        self.op("synhelp %d %s %d %d" % (t, hx(name), h, n), {"o": "synhelp", "t": t, "name": list(name), "help": h, "nerr": n})

    def cinit(self):
        self.op("cinit", {"o": "cinit"})

    def cuninit(self, last=True):
        self.op("cuninit", {"o": "cuninit", "last": last})

    def creg(self, name, p, desc, x):
        self.op("creg %s %d %s %d" % (hx(name), p, hx(desc), x), {"o": "creg", "name": list(name), "p": p, "desc": list(desc), "x": x})

    def crereg(self, name, p, x):
        self.op("crereg %s %d %d" % (hx(name), p, x), {"o": "crereg", "name": list(name), "p": p, "x": x})

    def c1(self, op, name):
        self.op("%s %s" % (op, hx(name)), {"o": op, "name": list(name)})

    def ccount(self):
        self.op("ccount", {"o": "ccount"})

    def cscan(self):
        self.op("cscan", {"o": "cscan"})

    def cdispatch(self, name, argv):
        self.op("cdispatch %s %d %s" % (hx(name), len(argv), " ".join(hx(a) for a in argv)),
                {"o": "cdispatch", "name": list(name), "argv": [list(a) for a in argv]})

    # --- dynamic strings
    def d(self, op, d, words=(), **ev):
        e = {"o": op, "d": d}
        e.update(ev)
        self.op(" ".join([op, str(d)] + [str(w) for w in words]), e)

    # --- hash tables
    def h(self, op, h, words=(), **ev):
        e = {"o": op, "h": h}
        e.update(ev)
        self.op(" ".join([op, str(h)] + [str(w) for w in words]), e)

    def sort(self, es, i, k, desc, elems):
        self.op("sort %d %d %d %d %s" % (es, i, k, desc, " ".join(hx(x) for x in elems)),
                {"o": "sort", "a": [list(x) for x in elems], "i": i, "k": k, "desc": desc})

    def __len__(self):
        return len(self.ev)


def ent(k, sh=None, lo=None, dt=None, gl=None, mn=0, mx=1, opt=False, aux=None, fl=0, ct="n", cb=None, hv=True, ck=0, sc=(0,)):
    """cb: the callbacks the caller supplies (r s c e, n: no reset); then hv, ck, sc: takes a value, results of the check and of the scans"""
    e = dict(k=k, sh=sh, lo=lo, dt=dt, gl=gl, mn=mn, mx=mx, opt=opt, aux=aux, fl=fl, ct=ct)
    if cb is not None:
        e.update(cb=cb, hv=hv, ck=ck, sc=sc)
    return e


# ------------------------------------------------------------- running cases
ASAN = "detect_leaks=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=165:allocator_may_return_null=1:abort_on_error=0"
HANG_SECS = 10


def _shard(driver, path, first, last, env):
    """-> ({id: [obs...]}, {id: reason}) for cases first..last"""
    obs, bad = {}, {}
    crashes = 0
    while first <= last:
        p = subprocess.Popen([driver, path, str(first), str(last), str(HANG_SECS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        err = []
        th = threading.Thread(target=lambda: err.append(p.stderr.read()))
        th.start()
        dog = threading.Timer(600, p.kill)      # a hang that uses no processor time
        dog.start()
        cur = None
        for ln in p.stdout:
            if ln[:2] == b"O ":
                try:
                    obs[cur].append(json.loads(ln[2:]))
                except ValueError:
                    break
            elif ln[:2] == b"B ":
                cur = int(ln[2:])
                obs[cur] = []
            elif ln[:2] == b"X ":
                obs[cur].append(None)
        rc = p.wait()
        dog.cancel()
        th.join()
        if rc == 0:
            break
        if cur is None or rc == 98:
            raise ToolError("driver failed (%d): %s" % (rc, err[0][-2000:].decode("latin1")))
        txt = err[0].decode("latin1")
        m = re.search(r"(runtime error: [^\n]*|AddressSanitizer: [^\n]*)", txt)
        bad[cur] = "hang" if rc in (-27, -14) else "crash: exit %d %s" % (rc, m.group(1) if m else txt[-200:])
        if rc == 96 and "AddressSanitizer" not in txt and "runtime error" not in txt:
            bad[cur] = "crash: the case's process died " + txt[-200:]
        crashes += 1
        if crashes > 25:
            for i in range(cur + 1, last + 1):
                bad[i] = "skipped"
            break
        first = cur + 1
    return obs, bad


def run_cases(driver, cases, name="cases"):
    """Run the cases; returns one event sequence (with observations) per case. A crash or hang is an event."""
    path = os.path.join(scratch(), name + ".txt")
    with open(path, "w") as f:
        for c in cases:
            f.write("C f\n" if c.fork else "C\n")
            f.write("\n".join(c.lines))
            f.write("\nX\n")
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0", TZ="UTC", LC_ALL="C")
    env.pop("POSIXLY_CORRECT", None)
    n = len(cases)
    k = max(1, min(NCPU, n // 4 or 1))
    cuts = [n * i // k for i in range(k + 1)]
    with ThreadPoolExecutor(k) as ex:
        parts = list(ex.map(lambda i: _shard(driver, path, cuts[i], cuts[i + 1] - 1, env), range(k)))
    out = []
    for i, c in enumerate(cases):
        obs, bad = next(p for p, lo in zip(parts, cuts[1:]) if i < lo)
        o = obs.get(i, [])
        evs, j, done = [], 0, bool(o) and o[-1] is None
        if done:
            o = o[:-1]
        if bad.get(i) == "skipped":
            out.append(None)
            continue
        for e, has in zip(c.ev, c.hasobs):
            if not has:
                evs.append(e)
                continue
            if j >= len(o):
                why = bad.get(i, "no observation")
                evs.append({"o": "hang" if why == "hang" else "crash", "in": e, "why": why})
                break
            if o[j]["o"] != e["o"]:
                raise ToolError("driver out of step: %s for %s" % (o[j]["o"], e["o"]))
            e = dict(e)
            e["obs"] = o[j]
            evs.append(e)
            j += 1
        else:
            if not done:
                evs.append({"o": "crash", "in": {}, "why": bad.get(i, "no end")})
            elif j != len(o):
                raise ToolError("driver made more observations than expected")
        out.append(evs)
    return out


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, args=(), heap="3g", timeout=1500, meta=None):
    meta = meta or tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)), "-Xss256m", "-Xmx" + heap, "-cp", TLC_CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in %d s: %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Verdict:
    def __init__(self):
        self.accepted, self.rejected, self.states, self.generated, self.events = 0, {}, 0, 0, 0


def validate(evs, longonly=False, name="trace"):
    """Is every recorded case a behaviour of the specification? evs: {id: events}"""
    text = {i: json.dumps({"id": i, "ev": e}, separators=(",", ":")) for i, e in evs.items()}
    order = sorted(text, key=lambda i: -len(text[i]))
    size = sum(map(len, text.values()))
    k = max(1, min(4, NCPU // 2, size // 2000000))
    parts = [order[i::k] for i in range(k)]
    v = Verdict()

    def one(j):
        p = os.path.join(scratch(), "%s%d.ndjson" % (name, j))
        with open(p, "w") as f:
            for i in parts[j]:
                f.write(text[i] + "\n")
        rc, out = tlc("Trace.tla", "Trace.cfg", env={"TRACE": p, "LONGONLY": "1" if longonly else "0"}, workers=max(1, NCPU // k))
        os.unlink(p)
        return rc, out
    with ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, range(k)))
    for j, (rc, out) in enumerate(res):
        if rc in (75, 255) and "model invariant" not in out and "OutOfMemory" not in out and ("valuat" in out or "Attempted" in out):
            # an observation the specification cannot even be evaluated on: find the cases
            if len(parts[j]) == 1:
                rc2, out2 = one(j)
                if rc2 != rc:
                    raise ToolError("TLC failed once on a recorded trace (%d):\n%s" % (rc, out[-6000:]))
                m = re.search(r"(Attempted[^\n]*|[^\n]*valuat[^\n]*)", out)
                v.rejected[parts[j][0]] = (0, "?", "not even comparable: " + (m.group(1) if m else ""))
                v.events += len(evs[parts[j][0]])
                continue
            h = len(parts[j]) // 2
            for n, half in (("a", parts[j][:h]), ("b", parts[j][h:])):
                w = validate({i: evs[i] for i in half}, longonly, name + n)
                v.accepted += w.accepted
                v.rejected.update(w.rejected)
                v.states += w.states
                v.generated += w.generated
                v.events += w.events
                if v.rejected:
                    break      # one is enough
            continue
        if rc != 0:
            raise ToolError("TLC failed on recorded traces (%d):\n%s" % (rc, out[-6000:]))
        done = set(int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out))
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*(.*?)>>\n', out, re.S):
            rej.setdefault(int(m.group(1)), (int(m.group(2)), m.group(3), m.group(4)))
        g, d = tlc_stats(out)
        v.generated += g
        v.states += d
        for i in parts[j]:
            v.events += len(evs[i])
            if i in done:
                v.accepted += 1
            else:
                v.rejected[i] = rej.get(i, (0, "?", "no enabled step"))
    return v
