"""Shared machinery: building the harness from /repo, running TLC, comparing, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

sys.setrecursionlimit(200000); threading.stack_size(512 << 20)

class ToolError(Exception):
    pass

def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)

def thorough(): return TIER == "thorough"

# ---------------------------------------------------------------- TLC
def tlc(module, env, cfg=None, workers=8, timeout=800, xss="64m", heap="8g", extra=()):
    """run TLC; returns (emitted JSON objects, stats). A violated model invariant is a tool error:
    it says that the specification contradicts itself, not that the code is wrong."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir())
    e = dict(os.environ); e.update(env); e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", f"-Xss{xss}", f"-Xmx{heap}", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra,
           "-config", (cfg or module) + ".cfg", module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not finish in {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout.decode("utf-8", "replace")
    rest = []
    found = []
    for l in text.split("\n"):
        (found if l.startswith('"@@') else rest).append(l)
    found.sort()        # TLC's workers print in any order
    outs = [wide(json.loads(json.loads(l)[2:])) for l in found]
    msg = "\n".join(rest)
    if "Model checking completed. No error has been found." not in msg:
        raise ToolError(f"TLC on {module} failed:\n" + msg[-4000:])
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", msg)
    st = dict(generated=int(m.group(1).replace(",", "")), distinct=int(m.group(2).replace(",", "")))
    return outs, st

# TLC keeps strings in 8 bits when it writes states to disk: characters beyond ASCII are represented
# by control characters in the specification
WIDE = {"\u00a0": "\x01", "\u3000": "\x02", "\u2028": "\x03", "\u2003": "\x04", "\u00e9": "\x05", "\u0151": "\x06",
        "\u0085": "\x07", "\u4e16": "\x0e", "\U0001f600": "\x0f", "\u0301": "\x10", "\u0416": "\x11", "\u200b": "\x12", "\u00df": "\x13", "\u20ac": "\x14",
        "\u007f": "\x15", "\u00ff": "\x16", "\u0100": "\x17", "\ud7ff": "\x18", "\ue000": "\x19", "\uffff": "\x1a", "\U00010000": "\x1b", "\U0010ffff": "\x1c", "\u0080": "\x1d", "\u07ff": "\x1e", "\u0800": "\x1f", "\ufeff": "\x08"}
NARROW = {v: k for k, v in WIDE.items()}
def narrow(x):
    if isinstance(x, str):
        y = "".join(WIDE.get(c, c) for c in x)
        if any(ord(c) > 126 for c in y): raise ToolError(f"character not representable in the specification: {x!r}")
        return y
    if isinstance(x, list): return [narrow(y) for y in x]
    if isinstance(x, tuple): return [narrow(y) for y in x]
    if isinstance(x, dict): return {narrow(k): narrow(v) for k, v in x.items()}
    return x
def wide(x):
    if isinstance(x, str): return "".join(NARROW.get(c, c) for c in x)
    if isinstance(x, list): return [wide(y) for y in x]
    if isinstance(x, dict): return {wide(k): wide(v) for k, v in x.items()}
    return x

def workdir():
    d = os.path.join(BUILD, "work"); os.makedirs(d, exist_ok=True); return d

def jsonfile(obj, name):
    p = os.path.join(workdir(), name)
    with open(p, "w") as f: json.dump(narrow(obj), f)
    return p

# ---------------------------------------------------------------- cargo
CARGO_ENV = dict(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
                 CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)

def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET_DIR"): e.pop(k, None)
    e.update(CARGO_ENV); return e

def cargo(args, cwd, timeout=600):
    return subprocess.run(["cargo", *args], cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout)

_linked = False
def link_harness():
    """the harness refers to the code under test by path; VERIF_REPO may point elsewhere"""
    global _linked
    if _linked: return os.path.join(BUILD, "harness")
    dst = os.path.join(BUILD, "harness")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), dst, ignore=shutil.ignore_patterns("target"))
    c = os.path.join(dst, "Cargo.toml")
    s = open(c).read().replace('"/repo/parsel"', f'"{REPO}/parsel"')
    open(c, "w").write(s)
    _linked = True
    return dst

def drop_stale():
    """cargo decides by modification times; a file put back with an old time must be seen as well"""
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("parsel-") or d.startswith("parsel_derive-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)

def package(name, files, deps=""):
    """write a generated package under build/ and return its directory"""
    h = link_harness()
    d = os.path.join(BUILD, "gen", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(
        f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n'
        f'parsel = {{ path = "{REPO}/parsel" }}\nharness = {{ path = "{h}" }}\n{deps}\n[workspace]\n')
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    for f, s in files.items():
        p = os.path.join(d, "src", f); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(s)
    return d

def build(name, files, deps=""):
    d = package(name, files, deps)
    drop_stale()
    p = cargo(["build", "--offline", "-q"], d)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout.decode("utf-8", "replace")[-6000:])
    return os.path.join(TARGET, "debug", name)

# ---------------------------------------------------------------- running the harness
class Run:
    """one harness process answering one line per vector; a crash or a hang is an answer, too"""
    def __init__(self, exe, limit=20.0): self.exe, self.limit = exe, limit

    def all(self, lines, total=600):
        """answers for all vectors, in order; {'r':'hang'} / {'r':'crash'} for those that did not answer"""
        res = []; k = 0; bad = 0
        while k < len(lines):
            part = self._some(lines[k:])
            for x in part: res.append(x)
            k += len(part)
            if part and part[-1].get("r") in ("hang", "crash"):
                bad += 1
                if bad >= 3: break
            elif k < len(lines):
                raise ToolError("harness stopped early")
        return res

    def _some(self, lines):
        p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits)
        def feed():
            try:
                for l in lines: p.stdin.write(l.encode() + b"\n")
                p.stdin.close()
            except (BrokenPipeError, ValueError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True); th.start()
        q = queue.Queue()
        def rd():
            for l in p.stdout: q.put(l)
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()
        out = []
        while len(out) < len(lines):
            try: l = q.get(timeout=self.limit)
            except queue.Empty:
                p.kill(); p.wait(); out.append({"r": "hang"}); return out
            if l is None:
                rc = p.wait(); out.append({"r": "crash", "rc": rc}); return out
            out.append(json.loads(l))
        p.wait(timeout=10)
        return out

def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.viol = []; self.cov = {}; self.samples = []; self.assume = []
        self.count = dict(states=0, transitions=0, traces_validated_against_impl=0)

    def states(self, st):
        self.count["states"] += st["distinct"]; self.count["transitions"] += st["generated"]

    def traces(self, n): self.count["traces_validated_against_impl"] += n

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def violation(self, what, **detail):
        if any(v["what"] == what for v in self.viol) and len(self.viol) > 50: return
        self.viol.append(dict(what=what, **detail))

    def finish(self):
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=dict(self.count, samples=self.samples, **self.cov),
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.pid}: {self.count} {({k: v for k, v in self.cov.items() if isinstance(v, (int, str))})}")
        if self.viol:
            d = os.path.join(VERIF, "build", "replays"); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.pid}.json")
            with open(p, "w") as f: json.dump(self.viol[:50], f, indent=1, default=str)
            for v in self.viol[:5]:
                log("violated:", json.dumps(v, default=str)[:1500])
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
            return 1
        log(f"{self.pid}: held on everything explored")
        return 0
