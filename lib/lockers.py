"""Real processes stepped through mounting and unmounting the same repository; the histories are judged by LockerTrace."""
import select
from vlib import *

class Proc:
    """A driver process that stops before every call that concerns the lock and every call that changes something stored."""
    def __init__(self, name, d, base, ro, log, tag, work=True, fmt="full block=256 keyseed=5", again=False, keep=False, user=0):
        self.name, self.d, self.ro, self.log = name, d, ro, log
        self.fifo = os.path.join(base, "fifo-" + name); os.mkfifo(self.fifo)
        self.l = Live(); self.buf = b""
        self.ctl = os.open(self.fifo, os.O_RDWR)
        if user and self.l(f"user {user}")["r"] != 0: raise Broken(f"cannot become user {user}")
        assert self.l(f"step {self.fifo}")["r"] >= 0
        self.todo = ["mount"] + ([f"create 1 /{tag} 644"] + (["write 1 0 300 3"] if keep else ["release 1"]) if work and not ro else []) + ["ls /", "umount open" if keep else "umount"]
        if again: self.todo += self.todo
        self.cur, self.at, self.done, self.blocked, self.fmt, self.tag, self.moves = None, None, False, False, fmt, tag, 0
        self.made, self.state = False, "out"
    def ev(self, op, **k): self.log({"op": op, "p": self.name, **k})
    def line(self, timeout):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.l.p.stdout], [], [], timeout)
            if not r: return None
            x = os.read(self.l.p.stdout.fileno(), 65536)
            if not x: return "EOF"
            self.buf += x
        a, self.buf = self.buf.split(b"\n", 1)
        return json.loads(a)
    def move(self, upto=None):
        """To the next stop: a lock step, the first change after a lock step, or the end of the command.  Returns False when there is nothing left to do."""
        if self.done: return False
        self.moves += 1
        last_change = None
        if self.cur is None:
            if not self.todo: self.end(); return False
            self.cur = self.todo.pop(0)
            w = self.cur.split()[0]
            if w == "mount": self.ev("try", ro=self.ro); self.state = "try"; self.l.send(f"mount dir={self.d} format={self.fmt} ro={int(self.ro)}")
            else:
                if w == "umount": self.ev("leave"); self.state = "leave"
                self.l.send(self.cur)
        elif not self.blocked: last_change = self.go()
        while True:
            m = self.line(20 if not self.blocked else .05)
            if m is None:
                self.blocked = True
                return True
            self.blocked = False
            if m == "EOF":
                self.ev("died", r=f"rc {self.l.p.wait()} during {self.cur}"); self.done = True; self.end(); return False
            if "at" in m:
                self.at = m
                if self.cur.split()[0] in ("create", "write", "release", "ls") and m["changes"] and not m["lock"]: last_change = self.go(); continue     # work is not interleaved
                if m["changes"] and not m["lock"] and last_change: self.go(); continue
                return True
            self.answer(m); return True
    def go(self):
        m, self.at = self.at, None
        c = bool(m["changes"] and not m["lock"])
        if c: self.ev("change", what=m["at"])
        if m["lock"] and m["at"] == "unlink": self.ev("unlocks")
        os.write(self.ctl, b".")
        return c
    def answer(self, m):
        w, self.cur = self.cur.split()[0], None
        r = m["r"]
        if w == "mount":
            if r == 0: self.ev("ok"); self.state = "held"
            else: self.ev("no", r=str(r)); self.todo = self.todo[self.todo.index("mount"):] if "mount" in self.todo else []; self.state = "out"
        elif w == "umount": self.ev("left"); self.state = "out"
        elif w == "create": self.made = r == 0
        elif w == "ls": self.listing([dec(n).decode() for n, k in m.get("ls", [])] if r >= 0 else None)
    def listing(self, names): self.ev("listing", names=names)
    def end(self):
        if self.l is None: return
        self.done = True; os.close(self.ctl)
        self.l.close(); self.l.p.stdout.close(); self.l = None
    def kill(self):
        if self.done: return
        self.ev("kill"); self.done = True; os.close(self.ctl)
        self.l.kill()
        for f in (self.l.p.stdin, self.l.p.stdout):
            with contextlib.suppress(OSError): f.close()
        self.l = None

class Race:
    """plan: list of (process name, number of moves | "end" | "kill" | "lockstep" ...); afterwards everybody finishes, then a further process mounts alone."""
    recorded = False
    def __init__(self, plan, stale=None, fresh=False, ro=(), tag="", again=(), keep=False, users=()):
        self.users = dict(users)      # the users the processes belong to (root when not given)
        self.keep = keep      # files stay open until the process unmounts (as when it is stopped by a signal), and times are stored
        self.plan, self.stale, self.fresh, self.ro, self.tag, self.again = plan, stale, fresh, set(ro), tag, set(again)
        self.lengths = {}
    def dump(self): return {"plan": self.plan, "stale": self.stale, "fresh": self.fresh, "ro": sorted(self.ro), "again": sorted(self.again), "keep": self.keep, "users": self.users}
    def run(self):
        base = fresh("race"); d = os.path.join(base, "repo"); os.mkdir(d)
        ev, names = [], {}
        committed = set()
        def log(e):
            if e["op"] == "listing":
                # files of holders that unmounted before this one mounted
                p = procs[e["p"]]
                if e["names"] is None: ev.append({"op": "seen", "p": e["p"], "r": "no", "what": "listing"}); return
                miss = p.expect - set(e["names"])
                ev.append({"op": "seen", "p": e["p"], "r": "no" if miss else "yes", "what": ",".join(sorted(miss))}); return
            ev.append({"r": "", "what": "", "ro": False, **e})
            p = procs.get(e["p"])
            if e["op"] == "ok": p.expect = set(committed)
            if e["op"] == "left" and p.made: committed.add(p.tag)
        procs = {}
        lock = os.path.join(d, ".securefs.lock")
        if not self.fresh:
            run_driver([f"mount dir={d} format=full block=256 keyseed=5" + (" store_time=1" if self.keep else ""), "create 1 /old 644", "release 1", "umount"])
            committed.add("old")
        if self.stale is not None:
            t = self.stale
            if t == "dead":
                q = subprocess.Popen(["true"]); q.wait(); t = str(q.pid)
            with open(lock, "w") as f: f.write(t)
        def look():
            ev.append({"op": "look", "p": "env", "r": "yes" if os.path.lexists(lock) else "no", "what": "", "ro": False})
        def get(n):
            if n not in procs: procs[n] = Proc(n, d, base, n in self.ro, log, "f" + n, again=n in self.again, keep=self.keep, user=self.users.get(n, 0), fmt="full block=256 keyseed=5" + (" store_time=1" if self.keep else "")); procs[n].expect = set()
            return procs[n]
        try:
            for n, k in self.plan:
                p = get(n)
                if k == "kill":
                    if p.at and p.at["lock"] or p.cur is None or (p.cur == "mount" and p.at and p.at["lock"]): p.kill()
                elif k == "end":
                    for _ in range(300):
                        if not p.move(): break
                    else: pass
                elif k == "held":
                    for _ in range(300):
                        if p.state == "held" or not p.move(): break
                else:
                    for _ in range(k):
                        if not p.move(): break
                look()
            # everybody finishes
            for _ in range(400):
                if not any([p.move() for p in list(procs.values())]): break
            else: ev.append({"op": "died", "p": "env", "r": "stuck: " + ",".join(f"{p.name} {p.cur} {p.at}" for p in procs.values() if not p.done), "what": "", "ro": False})
            look()
            self.lengths = {n: p.moves for n, p in procs.items()}
            last = get("Z")
            while last.move(): pass
            look()
        finally:
            for p in procs.values(): p.kill()
        drop(base)
        return {"id": self.tag, "stale": self.stale is not None, "fresh": self.fresh, "ev": ev}
