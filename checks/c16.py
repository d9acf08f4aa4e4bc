"""Exclusive mounting.  The lock protocol (create or take over a stale lock, write back, remove) is explored exhaustively by TLC for two and three processes with kills between any two system calls; five deviating designs must fail.  Real
processes are then stopped before every system call that concerns the lock and before changes of the stored data, and run in every interleaving with up to two switches: one runs a steps, a second b steps, then
the first to its end, then the second; from repositories that are new, in use before, or carry a stale, empty or unreadable lock; one of them killed at every step; readers, a third process, processes of other users (which may not signal each other), and random interleavings.
Each history ends with a process that mounts alone and must succeed and see what all others left.  Judged by TLC against LockerTrace (who has the repository, reasons of refusals, changes by others, remaining locks)."""
from common import *
from lockers import *
LEVEL = "model_checking"
ASSUMPTIONS = ["process numbers are not used again during a history", "advisory locks work on the file system of the data directory (not disabled by an option)", "a process is killed only while it waits at a call that concerns the lock or between operations"]
def run(ck):
    for design, good in (("good", True), ("nolock", False), ("nonlink", False), ("statfirst", False), ("early", False), ("lateopen", False)):
        for procs, tries, kills in ck.n([("{1, 2}", 3, 1), ("{1, 2, 3}", 1, 2)], [("{1, 2}", 4, 1), ("{1, 2, 3}", 2, 1), ("{1, 2, 3}", 1, 3)])[:None if good else 1]:
            path = fresh_path("mc") + ".cfg"
            with open(path, "w") as f: f.write(f'SPECIFICATION Spec\nINVARIANTS Mutex Fresh Fair Intact Clean\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Procs = {procs}\n  Design = "{design}"\n  MaxKill = {kills}\n  MaxTry = {tries}\n')
            out, rc = tlc("Locker", path)
            if ("is violated" in out) == good or (good and rc != 0): raise Broken(f"Locker {design}:\n" + out[-2000:])
            s, d = tlc_stats(out); ck.states += d; ck.transitions += s
            ck.cov.setdefault("models", {})[f"Locker-{design}-{procs}x{tries}"] = {"states": d, "transitions": s, "violated_as_it_should": not good}
    probe = Race([("A", "end")], tag="probe"); probe.run()
    n = probe.lengths["A"]
    ck.count("stops_of_one_process", n)
    S = []
    # processes of different users: one may not even ask whether another's process lives (EPERM), which is not the same as its being gone
    try:
        l = Live(); users = l("user 1002")["r"] == 0; l.close()
        r = Race([("B", "end")], users={"B": 1002}, tag="probe-user"); o = r.run(); users = users and any(e["op"] == "ok" and e["p"] == "B" for e in o["ev"])
    except Broken: users = False
    ck.count("other_users", int(users))
    if users:
        for u in ({"B": 1002}, {"A": 1001}, {"A": 1001, "B": 1002}):
            for a in range(0, n + 1, ck.n(2, 1)):
                S.append(Race([("A", "held"), ("B", a), ("A", 1), ("B", "end"), ("A", "end")], users=u, tag=f"users-{len(u)}{min(u)}-held-{a}"))
                S.append(Race([("A", a), ("B", "end"), ("A", "end")], users=u, tag=f"users-{len(u)}{min(u)}-{a}"))
            for a in range(1, n + 1, ck.n(3, 1)):
                S.append(Race([("A", a), ("A", "kill"), ("B", "held"), ("C", "held"), ("B", "end"), ("C", "end")], users=u, tag=f"users-{len(u)}{min(u)}-kill-{a}"))
    starts = [dict(), dict(fresh=True), dict(stale="dead")] + ck.n([], [dict(stale=""), dict(stale="xyz"), dict(stale="dead", fresh=True)])
    for si, st in enumerate(starts):
        for a in range(n + 1):
            for b in range(n + 1):
                if ck.quick and si and (a + b + si) % 2: continue
                S.append(Race([("A", a), ("B", b), ("A", "end"), ("B", "end")], tag=f"two-{si}-{a}-{b}", **st))
    # one is killed at every step while another is at every step (or not there)
    for a in range(1, n + 1):
        for b in list(range(0, n, ck.n(2, 1))):
            S.append(Race([("B", b), ("A", a), ("A", "kill"), ("B", 3), ("C", ck.n(a % 5 + 1, 4)), ("B", "end"), ("C", "end")], tag=f"kill-{a}-{b}", stale="dead" if (a + b) % 3 == 0 else None, fresh=(a + b) % 5 == 0))
    # A looks at the lock of H while H leaves and dies, then a third process comes
    for a in range(0, n + 1):
        for h in range(1, ck.n(6, 9)):
            S.append(Race([("H", "held"), ("A", 0), ("H", 4), ("A", a), ("H", h), ("H", "kill" if h % 2 else 1), ("A", ck.n(2, 3)), ("H", "end"), ("A", "held"), ("C", "held"), ("A", "end"), ("C", "end")], tag=f"leaving-{a}-{h}"))
    # A leaves with a file still open (as when stopped by a signal): what it then writes comes before the lock is removed
    for a in range(0, n + 1):
        for b in range(ck.n(2, 4)):
            S.append(Race([("A", "held"), ("A", 3 + a), ("B", "held"), ("A", b), ("B", 3), ("A", "end"), ("B", "end")], keep=True, tag=f"open-{a}-{b}"))
    for content in ["", "x", "999999999999999999999", "-5", "4194305", "12a", "\x00\x00", " "]:
        S.append(Race([("A", "held"), ("B", "end"), ("A", "end")], stale=content, tag=f"content-{content!r}"))
    # readers
    for a in range(0, n + 1, 2):
        for b in range(0, n + 1, 3):
            S.append(Race([("A", a), ("R", b), ("A", 3), ("R", "end"), ("B", 4), ("A", "end")], ro="R", tag=f"reader-{a}-{b}"))
    for i in range(ck.n(250, 4000)):
        rng = ck.rng("rand", i)
        ps = ["A", "B", "C"][:rng.choice([2, 3, 3])] + (["R"] if rng.random() < .3 else [])
        plan = [(rng.choice(ps), rng.choice([1, 1, 2, 3, 5, 8, "held", "end"])) for _ in range(rng.randint(4, 16))]
        if rng.random() < .4: k = rng.randrange(1, len(plan)); plan.insert(k, (plan[k - 1][0], "kill"))
        S.append(Race(plan, stale=rng.choice([None, None, "dead", ""]), fresh=rng.random() < .3, ro="R", again=["A"] if rng.random() < .5 else (), users={p: rng.choice([1001, 1002]) for p in ps if rng.random() < .5} if users and rng.random() < .4 else (), tag=f"rand{i}"))
    ck.scripts(S, module="LockerTrace", tries=4)
