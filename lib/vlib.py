"""Common machinery: building, scratch space, running the driver, turning its answers into traces, running TLC."""
import contextlib, errno, hashlib, itertools, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as vbuild

REPO = vbuild.REPO
BUILD = vbuild.BUILD
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ERRNAME = {v: k for k, v in vars(errno).items() if isinstance(v, int)}
ERRNAME[errno.EAGAIN] = "EAGAIN"; ERRNAME[errno.EOPNOTSUPP] = "EOPNOTSUPP"

class Broken(Exception):
    """The machinery itself failed (not a violation)."""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
            try:
                d = tempfile.mkdtemp(prefix="verif-", dir=base)
                p = os.path.join(d, "probe"); open(p, "w").close()
                os.setxattr(p, "user.probe", b"1")
                os.unlink(p)
                _scratch = d
                break
            except OSError:
                continue
        else:
            raise Broken("no scratch directory with extended attributes")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch
_n = itertools.count(1)
_who = ""          # distinguishes the names made by forked workers
def fresh(prefix="d"):
    d = os.path.join(scratch(), f"{prefix}{_who}{next(_n)}")
    os.mkdir(d)
    return d
def fresh_path(prefix="p"):
    return os.path.join(scratch(), f"{prefix}{_who}{next(_n)}")
def drop(d):
    shutil.rmtree(d, ignore_errors=True)

def build(*targets):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        vbuild.build(targets or ["vdrv"])

# ------------------------------------------------------------------------------------------------ driver
def enc(b):
    if isinstance(b, str): b = b.encode()
    if not b: return "%-"
    return "".join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in b"_-./~") else "%%%02x" % c for c in b)
def dec(s):
    if s == "%-": return b""
    return re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode())

class Crash(Exception):
    def __init__(self, msg, outs, rc): super().__init__(msg); self.outs = outs; self.rc = rc

def run_driver(lines, timeout=120, exe="vdrv", env=None, ok_rc=(0,), alarm=None):
    """Feeds all lines, returns (answers, exit status).  The driver answers one line per command."""
    path = os.path.join(BUILD, exe)
    text = "\n".join(([f"alarm {alarm}"] if alarm else []) + list(lines)) + "\n"
    e = dict(os.environ)
    e.update(env or {})
    e["MALLOC_PERTURB_"] = "165"
    try:
        p = subprocess.run([path], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=scratch())
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        rc, so, se = "timeout", ex.stdout or b"", ex.stderr or b""
    outs = []
    for ln in so.decode("latin-1").splitlines():
        try: outs.append(json.loads(ln))
        except ValueError: outs.append({"r": -9000, "raw": ln[:200]})
    if alarm: outs = outs[1:]
    return outs, rc, se.decode("latin-1", "replace")

class Live:
    """An interactive driver process."""
    def __init__(self, exe="vdrv", env=None):
        e = dict(os.environ); e.update(env or {})
        self.p = subprocess.Popen([os.path.join(BUILD, exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=scratch())
    def send(self, line):
        self.p.stdin.write((line + "\n").encode()); self.p.stdin.flush()
    def recv(self):
        ln = self.p.stdout.readline()
        if not ln: return None
        return json.loads(ln)
    def __call__(self, line):
        self.send(line); return self.recv()
    def kill(self):
        self.p.kill(); self.p.wait()
    def close(self):
        with contextlib.suppress(OSError): self.p.stdin.close()
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.kill()

def pmap(f, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(f, items))

def pfork(f, items, workers=None):
    """pmap in processes: only the results come back."""
    import pickle, traceback
    global _who
    k = min(workers or NCPU, len(items))
    if k < 2: return [f(x) for x in items]
    sys.stdout.flush(); sys.stderr.flush()
    d = fresh("fork")
    pids = []
    for j in range(k):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                _who = f"w{j}_"
                r = [f(x) for x in items[j::k]]
                with open(f"{d}/{j}", "wb") as fh: pickle.dump(r, fh)
                code = 0
            except BaseException:
                with open(f"{d}/{j}.err", "w") as fh: fh.write(traceback.format_exc())
            finally: os._exit(code)
        pids.append(pid)
    bad = [j for j, pid in enumerate(pids) if os.waitpid(pid, 0)[1] != 0]
    if bad: raise Broken("a worker failed: " + "".join(open(f"{d}/{j}.err").read() for j in bad if os.path.exists(f"{d}/{j}.err"))[-3000:])
    out = [None] * len(items)
    for j in range(k):
        with open(f"{d}/{j}", "rb") as fh: out[j::k] = pickle.load(fh)
    drop(d)
    return out

# ------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, args=(), workers=None, timeout=600, heap="4g", cwd=SPEC, props=()):
    meta = fresh_path("tlc")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", *props, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers or NCPU), "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode("utf-8", "replace"), "timeout"
    shutil.rmtree(meta, ignore_errors=True)
    return out, rc
def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def validate(module, traces, env=None, timeout=600, heap="6g", workers=None, cfg=None):
    """Runs a trace specification over the traces (list of JSON objects).  Returns {index: None | reason} and statistics."""
    f = fresh_path("traces") + ".ndjson"
    with open(f, "w") as fh:
        for t in traces: fh.write(json.dumps(t) + "\n")
    e = {"TRACES": f}; e.update(env or {})
    out, rc = tlc(module, env=e, timeout=timeout, heap=heap, workers=workers, cfg=cfg)
    verdict = {}
    for m in re.finditer(r'<<"ACCEPT", (\d+)', out): verdict[int(m.group(1)) - 1] = None
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', out):
        i = int(m.group(1)) - 1
        if verdict.get(i, 1) is not None: verdict[i] = (int(m.group(2)), m.group(3).replace('\\"', '"'))
    st = tlc_stats(out)
    inv = "is violated" in out
    if rc != 0 and not inv:
        raise Broken(f"TLC failed on {module} (rc {rc}):\n" + out[-6000:])
    os.unlink(f)
    return verdict, {"states": st[1], "transitions": st[0], "invariant_violated": inv, "out": out}
