"""Idle shutdown.  The timer (worker waiting under a lock, deadlines moved in both directions, destruction) and the activities on top of it are explored exhaustively by TLC; five deviating designs must fail.
On the real timer, every sequence of up to four (thorough: five) steps over deadlines in the past, near, farther and far away and waits shorter and longer than those is performed, each on a timer of its own,
then waited for or destroyed at once.  On a mounted repository of either format with an idle time, every kind of operation (also failing ones) is the last activity after a pause, and several threads are active
at the same time, also while a thread is not scheduled for a while after having looked at the clock.  Callback times are judged by TLC against TimerTrace: early only when at no earlier instant the deadline in force
had passed, so scheduling delays cannot raise an alarm; late only after many seconds."""
from common import *
import itertools
LEVEL = "model_checking"
ASSUMPTIONS = ["the wall clock is not set during a check", "a callback that is due is not delayed by more than the patience (8 s) by the scheduler"]
PATIENCE = 8000

class Timers:
    """A batch of programs on timers, run by one process."""
    def __init__(self, specs): self.specs = specs
    def run(self):
        p = fresh_path("timers")
        with open(p, "w") as f: f.write("\n".join(self.specs) + "\n")
        o, rc, se = run_driver([f"timers {p} {PATIENCE + 500}"], timeout=600)
        drop(p)
        if rc != 0 or not o or "timers" not in o[0]: return [[{"op": "destroyed", "b": 0, "e": 2000000000, "d": 0}]] * len(self.specs)
        return o[0]["timers"]
class One:
    def __init__(self, spec): self.spec = spec
    def dump(self): return {"timer": self.spec}
    def run(self): return trace_of(self.spec, Timers([self.spec]).run()[0])
def trace_of(spec, ev):
    base = min(e["b"] for e in ev)
    return {"id": spec, "kind": "timer", "timeout": 0, "patience": PATIENCE * 1000, "ev": [{"op": e["op"], "r": "", "b": e["b"] - base, "e": max(e["e"], e["b"]) - base, "d": (e["d"] - base) if e["op"] == "set" else 0} for e in ev]}

class Idle:
    """A mounted repository with an idle time; lines: prepared operations, then threads with pauses."""
    def __init__(self, fmt, secs, prep, threads, tag, destroy=False): self.fmt, self.secs, self.prep, self.threads, self.tag, self.destroy = fmt, secs, prep, threads, tag, destroy
    def dump(self): return {"format": self.fmt, "idle": self.secs, "prepared": self.prep, "threads": self.threads, "tag": self.tag, "destroy": self.destroy}
    def run(self):
        import time
        base = fresh("idle"); d = os.path.join(base, "d"); os.mkdir(d)
        src = os.path.join(VERIF, "golden", "reference")
        run_driver(["cli " + " ".join(map(enc, ["create", "--format", "4" if self.fmt == "lite" else "2", "--pass", "pw", "--argon2-t", "1", "--argon2-m", "8", "--argon2-p", "1", d]))])
        t0 = int(time.time() * 1e6)
        L = Live()
        try:
            L.send("cli " + " ".join(map(enc, ["mount", "--pass", "pw", "--max-idle-seconds", str(self.secs), d, os.path.join(base, "m")])))
            a = L.recv()
            if "mounted" not in a: raise Broken(f"cannot mount: {a}")
            w = L("watchexit")
            ev = [("act", t0, w["t"])]
            par = [f"0 {x}" for x in self.prep]
            for i, th in enumerate(self.threads): par += [f"{i} {x}" for x in th]
            L.send(f"par {len(self.threads)}")
            for x in par: L.send(x)
            L.send("endpar")
            r = L.recv()
            for x in r["par"]:
                if x["b"] and x["o"]["r"] != -38: ev.append(("act", x["b"], x["x"]))
            self.results = [x["o"]["r"] for x in r["par"] if x["t"] == 0]
            if not self.destroy:
                f = L(f"fires {PATIENCE + 1500} 300")
                ev.append(("waited", f["t"], f["t"]))
                L("exitloop")
            else:
                b = int(time.time() * 1e6)
                L("exitloop")
                e = int(time.time() * 1e6)
                ev.append(("destroyed", b, e))
                f = L(f"fires {self.secs * 1000 + 1200} 0")
            for x in f["fires"]: ev.append(("fire", x, x))
            # all events before a fire that were not over are compared by time, so order does not matter
            ev.append(("end", f["t"], f["t"]))
        finally: L.kill()
        drop(base)
        return {"id": self.tag, "kind": "idle", "timeout": self.secs * 1000000, "patience": PATIENCE * 1000, "ev": [{"op": o, "r": "", "b": b - t0, "e": e - t0, "d": 0} for o, b, e in ev]}

OPS = {  # name: (prepared, the operation)
    "getattr": ([], "getattr /"), "getattr-none": ([], "getattr /none"), "statfs": ([], "statfs /"), "mkdir": ([], "mkdir /n 755"), "mkdir-again": ([], "mkdir /d 755"), "rmdir": ([], "rmdir /d"), "rmdir-none": ([], "rmdir /none"),
    "create": ([], "create 9 /n 644"), "create-again": ([], "create 9 /none/n 644"), "unlink": ([], "unlink /f"), "unlink-none": ([], "unlink /none"), "open": ([], "open 3 /f r"), "open-none": ([], "open 3 /none r"),
    "release": (["open 3 /f r"], "release 3"), "read": (["open 3 /f r"], "read 3 0 10"), "write": (["open 3 /f w"], "write 3 0 10 7"), "flush": (["open 3 /f w"], "flush 3"), "fsync": (["open 3 /f w"], "fsync 3"),
    "ftruncate": (["open 3 /f w"], "ftruncate 3 5"), "fgetattr": (["open 3 /f r"], "fgetattr 3"), "truncate": ([], "truncate /f 7"), "truncate-none": ([], "truncate /none 7"), "chmod": ([], "chmod /f 600"), "chown": ([], "chown /f 0 0"),
    "utimens": ([], "utimens /f 1 2 3 4"), "rename": ([], "rename /f /g"), "rename-none": ([], "rename /none /g"), "link": ([], "link /f /l"), "symlink": ([], "symlink x /s"), "readlink": (["symlink x /sl"], "readlink /sl"),
    "opendir": ([], "opendir 4 /d"), "readdir": (["opendir 4 /d"], "readdir 4"), "releasedir": (["opendir 4 /d"], "releasedir 4"),
    "setxattr": ([], "setxattr /f user.a 5 0 1"), "getxattr": ([], "getxattr /f user.a 100"), "listxattr": ([], "listxattr /f 100"), "removexattr": ([], "removexattr /f user.a"), "ls": ([], "ls /"),
}

def run(ck):
    for design, free, good in (("good", True, True), ("good", False, True), ("lostwake", True, False), ("nowake", True, False), ("nolook", True, False), ("restart", True, False), ("stale", False, False)):
        path = fresh_path("mc") + ".cfg"
        with open(path, "w") as f:
            f.write(f'SPECIFICATION Spec\nINVARIANTS NeverEarly Once NeverLate Silent\n{"PROPERTIES Destroyed Fires" if good else ""}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Design = "{design}"\n  MaxTime = {ck.n(5, 6) if good else 5}\n  MaxSet = {ck.n(3, 4) if good else 3}\n  Timeout = 2\n  Setters = {{1, 2}}\n  Free = {"TRUE" if free else "FALSE"}\n')
        out, rc = tlc("Timer", path)
        if ("is violated" in out) == good or (good and rc != 0): raise Broken(f"Timer {design}:\n" + out[-2000:])
        s, d = tlc_stats(out); ck.states += d; ck.transitions += s
        ck.cov.setdefault("models", {})[f"Timer-{design}-{'free' if free else 'activities'}"] = {"states": d, "transitions": s, "violated_as_it_should": not good}
    ck.part("models")
    # every short program on a timer
    steps = ["s-50", "s15", "s60", "s900000", "w4000", "w30000"]
    specs = []
    for n in range(0, ck.n(5, 6)):
        for w in itertools.product(steps, repeat=n):
            if any(a[0] == b[0] == "w" for a, b in zip(w, w[1:])) or (w and w[-1][0] == "w"): continue
            far = [x for x in w if x[0] == "s"][-1:] == ["s900000"]
            specs.append(",".join(list(w) + ["d"] if far or n < 2 else list(w) + ["f40000"]))
            if n in (2, 3) and not far: specs.append(",".join(list(w) + ["d"]))
    for i in range(ck.n(300, 4000)):
        rng = ck.rng("timer", i)
        w = [rng.choice(steps + ["s5", "s30", "w100", "w16000", f"w{rng.randrange(1, 40000)}"]) for _ in range(rng.randint(4, 14))]
        last = [x for x in w if x[0] == "s"][-1:]
        specs.append(",".join(w + (["d"] if last in ([], ["s900000"]) or rng.random() < .2 else ["f40000"])))
    ck.count("programs_on_timers", len(specs))
    size = 400
    parts = [specs[k:k + size] for k in range(0, len(specs), size)]
    got = pmap(lambda p: Timers(p).run(), parts, 3)
    flat = [(s, trace_of(s, ev)) for p, evs in zip(parts, got) for s, ev in zip(p, evs)]
    ck.key = ""
    ck.sample({"script": {"timer": flat[0][0]}, "trace_head": flat[0][1]["ev"][:3]})
    ck.judge([One(s) for s, _ in flat], [t for _, t in flat], "TimerTrace", 4, None, lambda s: s.run())
    ck.part("timers")
    # activity of every kind
    S = []
    base = ["mkdir /d 755", "create 1 /f 644", "write 1 0 100 3", "release 1", "setxattr /f user.a 3 0 1"]
    for fmt in ("lite", "full"):
        for name, (prep, op) in OPS.items():
            S.append(Idle(fmt, 2, base + prep, [["sleep 1300", op]], f"{fmt}-{name}"))
        S.append(Idle(fmt, 1, [], [[]], f"{fmt}-nothing"))
        S.append(Idle(fmt, 1, base, [[]], f"{fmt}-destroyed", destroy=True))
        S.append(Idle(fmt, 1, base, [["sleep 900"]], f"{fmt}-destroyed-late", destroy=True))
        for a, b in ((700, 350), (400, 200), (900, 600)):
            S.append(Idle(fmt, 1, base, [["sleep 100", f"slow {a}", "getattr /"], [f"sleep {100 + b}", "getattr /d"]], f"{fmt}-slow-{a}-{b}"))
    for i in range(ck.n(24, 200)):
        rng = ck.rng("idle", i)
        ths = []
        for t in range(rng.randint(1, 4)):
            th = []
            for _ in range(rng.randint(1, 5)):
                th.append(f"sleep {rng.choice([1, 50, 200, 500, 850, 950])}")
                if rng.random() < .25: th.append(f"slow {rng.choice([20, 200, 500])}")
                th.append(rng.choice(["getattr /f", "ls /", "getattr /none", "statfs /", "chmod /f 640"]))
            ths.append(th)
        S.append(Idle(rng.choice(["lite", "full"]), 1, base, ths, f"rand{i}", destroy=rng.random() < .15))
    ck.scripts(S, module="TimerTrace", tries=4, workers=48)
