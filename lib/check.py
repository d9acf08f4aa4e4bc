"""The check runner: one Check object per run of one property's check."""
import importlib, json, os, re, sys, time, traceback, hashlib, random
from vlib import *
import vlib
from tree import *

FIND = os.path.join(VERIF, "known-findings.txt")
OUT = os.path.join(VERIF, "out")

class Stop(Exception): pass

class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.evaluations = self.nontrivial = self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.cov, self.violations, self.assumptions = [], [], {}, 0, []
        self.keys = set()
        self.rule = ""
        self.unconfirmed = []
        self.known = self.load_known()
        self.parts = {}
        self.key = ""
    def n(self, quick, thorough): return quick if self.quick else thorough
    def rng(self, *k): return random.Random(f"{SEED}/{self.pid}/" + "/".join(map(str, k)))
    # ---- known findings: "known: property=<id> key=<regex> <what fails>"
    def load_known(self):
        r = []
        if os.path.exists(FIND):
            for ln in open(FIND):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == self.pid: r.append((re.compile(m.group(2)), m.group(3)))
        return r
    # ---- bookkeeping
    def case(self, key=None, n=1, nontrivial=True):
        self.evaluations += n
        if nontrivial and (key is None or key not in self.keys):
            if key is not None: self.keys.add(key)
            self.nontrivial += n
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def count(self, what, n=1): self.cov[what] = self.cov.get(what, 0) + n
    def part(self, name): self.parts[name] = round(time.time() - self.t0, 1)
    # ---- verdicts
    def violation(self, what, replay, key=""):
        for rx, desc in self.known:
            if rx.search(key or what):
                print(f"KNOWN-FINDING: property={self.pid} {desc}", flush=True)
                return
        self.violations += 1
        os.makedirs(OUT, exist_ok=True)
        body = json.dumps({"property": self.pid, "what": what, "replay": replay}, indent=1, default=str)
        p = os.path.join(OUT, f"{self.pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f: f.write(body)
        print(f"{self.pid}: {what}"[:3000], flush=True)
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
        if self.violations >= 3: raise Stop()
    def evidence(self, error=None):
        c = {"rule": self.rule, "samples": self.samples, **self.cov}
        if self.level in ("exploration", "fault_enumeration"): c.update(evaluations=self.evaluations, distinct_nontrivial=self.nontrivial)
        if self.level == "model_checking": c.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, evaluations=self.evaluations,
                                                    distinct_nontrivial=self.nontrivial)
        if self.level == "fault_enumeration": c.update(traces_validated_against_impl=self.traces, states=self.states)
        if self.unconfirmed: c["unconfirmed_rejections"] = self.unconfirmed[:5]
        c["parts_s"] = self.parts
        if error: c["error"] = error
        e = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": c, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f: json.dump(e, f, indent=1, default=str)

    # ---- model checking of a specification
    def model(self, module, cfg=None, expect_ok=True, **kw):
        out, rc = tlc(module, cfg, **kw)
        s, d = tlc_stats(out)
        if rc == "timeout": raise Broken(f"TLC timed out on {module} {cfg}")
        if rc != 0: raise Broken(f"the specification {module} ({cfg}) fails its own check:\n" + out[-2500:])
        self.states += d; self.transitions += s
        self.cov.setdefault("models", {})[cfg or module] = {"states": d, "transitions": s}
        return out

    # ---- conformance of scripts
    def scripts(self, scripts, module="TreeTrace", tries=12, batch=2500, relevant=None, trace=None, timeout=900, workers=None, key="", forked=False):
        """Runs the scripts against the real code, lets TLC judge the traces, confirms and reports rejections."""
        self.key = key
        run = trace or (lambda s: s.run())
        for k in range(0, len(scripts), batch):
            part = scripts[k:k + batch]
            traces = (pfork if forked else pmap)(run, part, workers)
            self.judge(part, traces, module, tries, relevant, run, timeout)
            if self.evaluations and not self.samples and part: self.sample({"script": part[0].dump(), "trace_head": traces[0]["ev"][:3]})
    def judge(self, part, traces, module, tries, relevant, run, timeout=900):
        verdict, st = validate(module, traces, timeout=timeout)
        self.states += st["states"]; self.transitions += st["transitions"]; self.traces += len(traces)
        if st["invariant_violated"]:
            raise Broken("invariant of the specification violated on a trace:\n" + st["out"][-2500:])
        for i, t in enumerate(traces):
            if i not in verdict: raise Broken(f"no verdict for trace {t['id']}:\n" + st["out"][-2500:])
            self.case(f"{t['id']}", nontrivial=len(t["ev"]) > 1)
        bad = [i for i in range(len(traces)) if verdict[i] is not None]
        if bad: self.count("rejected_traces", len(bad))
        seen = set()
        for i in bad:
            l, d = verdict[i]
            e = traces[i]["ev"][l - 1]
            sig = (e["op"], re.sub(r"[0-9]+", "#", d)[:120])
            if sig in seen: continue
            if relevant and not relevant(e, d): continue
            self.confirm(part[i], traces[i], l, d, module, tries, run)
            seen.add(sig)
            if len(seen) >= 6: break
    def confirm(self, script, trace, l, d, module, tries, run):
        got = None
        if getattr(script, "recorded", False): got = (trace, l, d)          # the recorded history itself is the evidence
        for k in range(0 if got else tries):
            t = run(script)
            v, _ = validate(module, [t], workers=1)
            if v.get(0) is not None: got = (t, *v[0]); break
        if got is None:
            self.unconfirmed.append({"id": trace["id"], "event": trace["ev"][l - 1]["op"], "diff": d[:300]})
            print(f"note: rejection of {trace['id']} at event {l} did not repeat: {d[:300]}", flush=True)
            return
        t, l, d = got
        e = t["ev"][l - 1]
        short = {k: x for k, x in e.items() if k not in ("snap",)}
        if self.key: key = f"{self.key}:{e['op']}:{e['r']}:l{l}"
        else: key = ""
        self.violation(f"{t['id']} ({script.mount.desc() if hasattr(script, 'mount') else ''}): event {l} {json.dumps(short)[:500]} is not allowed by the specification: {d[:1200]}"
                       + (("\nstderr: " + script.stderr[-1500:]) if getattr(script, "stderr", "") else ""),
                       {"module": module, "script": script.dump(), "event": l, "diff": d, "trace": t}, key)

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=TIER)
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(a.property.lower())
    ck = Check(a.property, a.tier, getattr(mod, "LEVEL", "exploration"))
    ck.rule = (mod.RULE if hasattr(mod, "RULE") else mod.__doc__ or "").strip()
    ck.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    try:
        build(*getattr(mod, "TARGETS", ["vdrv"]))
        ck.part("built")
        mod.run(ck)
    except Stop: pass
    except Broken as e:
        print(f"{a.property}: machinery: {e}", flush=True)
        ck.evidence(str(e)[:2000])
        return 1 if ck.violations else 2
    except Exception:
        traceback.print_exc()
        ck.evidence(traceback.format_exc()[-2000:])
        return 1 if ck.violations else 2
    ck.part("done")
    ck.evidence()
    print(f"{a.property}: {'VIOLATED' if ck.violations else 'held'}; {ck.evaluations} cases, {ck.traces} traces judged, {ck.states} states, {time.time() - ck.t0:.1f} s", flush=True)
    return 1 if ck.violations else 0
