"""Runs the check of one property (see ../check).

A check is a list of parts.  In each part TLC explores a specification module
and emits a plan of events; observe.py replays the plan on the package in
/repo; TLC judges every observation with Conform.tla (or another judging
module).  This file only moves files around and counts.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("PYGMM_REPO", "/repo")
sys.path.insert(0, HERE)


class Failure(Exception):
    """Machinery failure: exit 2."""


def pyenv(extra=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    env.update(extra or {})
    return env


def compile_overrides(work):
    """Class files of the module overrides: those of setup, or fresh ones."""
    out = os.path.join(VERIF, "build", "ov")
    src = sorted(glob.glob(os.path.join(SPEC, "ov", "*.java")))
    main = os.path.join(out, "RealArith.class")
    if os.path.exists(main) and os.path.getmtime(main) >= max(os.path.getmtime(s) for s in src):
        return out
    out = os.path.join(work, "ov")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["javac", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
    if p.returncode:
        raise Failure("javac: " + p.stderr)
    return out


class Tlc:
    def __init__(self, ov, work):
        self.ov, self.work = ov, work
        self.states = self.transitions = 0
        self.runs = []

    def run(self, module, cfg=None, env=None, args=(), ok_codes=(0,), heap="6g", timeout=3000, workers="8"):
        meta = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", self.ov + ":" + TLA, "RunTLC", "-workers", workers,
               "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        t = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        out = "\n".join(x for x in p.stdout.split("\n")
                        if not re.match(r"(Loading|Parsing|Semantic|Linting|Computed) ", x))
        m = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"(\d[\d,]*) states checked", out) or re.findall(r"number of states generated: ([\d,]+)", out)
            if m:
                gen = dist = int(m[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        self.runs.append({"module": module, "cfg": cfg or module, "states": dist, "transitions": gen,
                          "wall_s": round(time.time() - t, 2)})
        if p.returncode not in ok_codes:
            raise Failure("TLC on %s: code %d\n%s\n%s" % (module, p.returncode, out[-6000:], p.stderr[-2000:]))
        return p.returncode, out


def read_nd(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def observe(plan, obs, rows, salt, script="observe.py", extra=None, timeout=1500):
    p = subprocess.run([PY, os.path.join(HERE, script), plan, obs, "--rows", str(rows), "--salt", str(salt)],
                       env=pyenv(extra), capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise Failure("observe: code %d\n%s" % (p.returncode, p.stderr[-3000:]))


def judge(tlc, prop, obs, out, module="Conform", heap="12g", seed=1):
    """Verdicts of all observations; what TLC cannot judge is malformed, and judged so."""
    left = obs
    verdicts = {}
    for attempt in range(6):
        if os.path.exists(out):
            os.remove(out)
        code, text = tlc.run(module, env={"OBS": left, "OUT": out, "PROP": prop, "SEED": seed}, heap=heap,
                             ok_codes=tuple(range(256)))
        for v in read_nd(out):
            verdicts[v["i"]] = v["bad"]
        if code == 0:
            break
        m = re.findall(r"position = (\d+)", text)
        rows = open(left).read().split("\n")
        if not m:
            raise Failure("TLC on %s: code %d\n%s" % (module, code, text[-6000:]))
        at = int(m[-1]) - 1
        e = json.loads(rows[at])
        why = re.findall(r"(?:Error: Evaluating[^\n]*\n|following error:\n|: )([^\n]{1,300})", text)
        verdicts[e["i"]] = [{"c": "malformed observation", "got": (why or [""])[0][:300], "want": "judgeable"}]
        left = out + ".left%d" % attempt
        with open(left, "w") as f:
            f.write("\n".join(x for x in rows if x.strip() and json.loads(x)["i"] not in verdicts) + "\n")
        if not os.path.getsize(left) > 1:
            break
    return verdicts


def brief(x, n=300):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="pygmm-%s-" % prop)
        self.tlc = Tlc(compile_overrides(self.work), self.work)
        self.violations = []      # (event with observation, broken clauses)
        self.judged = 0
        self.samples = []
        self.parts = []
        self.t0 = time.time()

    def path(self, name):
        return os.path.join(self.work, name)

    # one part: plan with TLC, replay on the package, judge with TLC
    def part(self, module="Explore", cfg=None, env=None, rows=6, batches=1, judge_module="Conform", args=(), name=None,
             observe_extra=None, heap="6g", laws=False, focus=0):
        for b in range(batches):
            seed = self.seed if b == 0 else self.seed * 1000 + b
            tag = "%d" % len(self.parts)
            plan, obs, out = self.path("plan" + tag), self.path("obs" + tag), self.path("out" + tag)
            t = time.time()
            e = {"SEED": seed, "PLAN": plan, "PROP": self.prop}
            e.update(env or {})
            self.tlc.run(module, cfg, e, args=args, heap=heap)
            if laws:      # the specification itself has the property
                self.tlc.run("Laws", env={"PLAN": plan, "PROP": self.prop, "SEED": seed}, heap="12g")
            t1 = time.time()
            observe(plan, obs, rows, seed, extra=observe_extra)
            t2 = time.time()
            self.judge_file(obs, out, judge_module, name or module, seed,
                            {"plan_s": round(t1 - t, 2), "observe_s": round(t2 - t1, 2)})
            if focus:
                self.look_closer(obs, plan, rows, seed, name or module, focus, observe_extra)
            for f in (plan, obs, out):
                if os.path.exists(f):
                    os.remove(f)

    def look_closer(self, obs, plan, rows, seed, name, most, extra):
        """Surrounds the observations that depart from the specification with further events, at most so many, and judges those."""
        os.remove(plan)
        # observations that cannot be evaluated have been judged so already
        self.tlc.run("Focus", env={"OBS": obs, "PLAN": plan, "PROP": self.prop, "SEED": seed}, heap="12g", ok_codes=tuple(range(256)))
        groups = {}
        for ev in read_nd(plan):
            groups.setdefault((ev["m"], ev["tag"]), []).append(ev)
        chosen = []
        for q in groups.values():
            q.sort(key=lambda ev: hashlib.sha1(json.dumps({k: v for k, v in ev.items() if k != "i"}, sort_keys=True).encode()).hexdigest())
        while len(chosen) < most and any(groups.values()):
            for q in groups.values():
                if q and len(chosen) < most:
                    chosen.append(q.pop())
        if not chosen:
            return
        near, obs2, out2 = plan + ".near", obs + ".near", obs + ".near.out"
        with open(near, "w") as f:
            for ev in chosen:
                f.write(json.dumps(ev) + "\n")
        observe(near, obs2, rows, seed, extra=extra)
        self.judge_file(obs2, out2, "Conform", name + ", around departures", seed)

    def judge_file(self, obs, out, judge_module, name, seed, timing=None):
        t2 = time.time()
        verdicts = judge(self.tlc, self.prop, obs, out, judge_module, seed=seed)
        n = bad = compared = 0
        tags = {}
        step = None
        with open(obs) as f:
            for line in f:
                if not line.strip():
                    continue
                ev = json.loads(line)
                n += 1
                k = "%s %s %s" % (ev.get("k"), ev.get("m", ""), ev.get("tag", ""))
                tags[k] = tags.get(k, 0) + 1
                if ev["i"] not in verdicts:
                    raise Failure("no verdict for event %d of part %s" % (ev["i"], name))
                if "driver" in ev["o"]:
                    verdicts[ev["i"]] = verdicts[ev["i"]] or [
                        {"c": "unobservable", "got": ev["o"]["driver"][-400:], "want": "an observation"}]
                if verdicts[ev["i"]]:
                    bad += 1
                    if len(self.violations) < 200:
                        self.violations.append((ev, verdicts[ev["i"]]))
                elif len([1 for s in self.samples if s[0] == k]) < 1 and len(self.samples) < 8:
                    self.samples.append((k, json.loads(line) if len(line) < 4000 else line[:4000]))
        self.judged += n
        self.parts.append({"part": name, "seed": seed, "events": n, "broken": bad, "by_kind": tags,
                           "judge_s": round(time.time() - t2, 2), **(timing or {})})
        if n == 0:
            raise Failure("part %s explored nothing" % name)

    def finish(self, assumptions=(), level="model_checking"):
        findings = known_findings(self.prop)
        fresh = []
        hit = {}
        for ev, bad in self.violations:
            f = next((f for f in findings if matches(f, ev, bad)), None)
            if f:
                hit.setdefault(f["line"], 0)
                hit[f["line"]] += 1
            else:
                fresh.append((ev, bad))
        for line, n in hit.items():
            print("KNOWN-FINDING: property=%s %s (%d events)" % (self.prop, line, n))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.tlc.states, "transitions": self.tlc.transitions,
                "traces_validated_against_impl": self.judged,
                "samples": [s for k, s in self.samples][:4]
                or [brief(v[0]) for v in self.violations[:2]],
                "parts": self.parts, "tlc_runs": self.tlc.runs,
            },
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"event": {k: v for k, v in e.items() if k not in ("o",)}, "observed": e["o"], "broken": b}
                           for e, b in fresh[:40]], f, indent=1)
            for e, b in fresh[:5]:
                print("  broken: %s  event: %s" % (brief(b), brief({k: v for k, v in e.items() if k not in ("o",)})))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings(prop):
    """Open findings: lines 'finding: property=<id> match=<JSON> <what>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\{.*?\}) (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": json.loads(m.group(2)), "line": m.group(3).strip()})
    return out


def matches(f, ev, bad):
    m = f["match"]
    for k, v in m.items():
        if k == "clauses":
            if not all(any(b["c"].startswith(c) for c in v) for b in bad):
                return False
        elif k == "s":
            if any(ev.get("s", {}).get(a) != w for a, w in v.items()):
                return False
        elif ev.get(k) != v:
            return False
    return True


def main():
    import argparse

    import checks

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
    try:
        if a.replay:
            return replay(c, a.replay)
        checks.CHECKS[a.property](c, c.tier == "thorough")
        return c.finish(checks.ASSUMPTIONS.get(a.property, []) + checks.ASSUMPTIONS["*"])
    except Failure as e:
        sys.stderr.write("ERROR: %s\n" % e)
        return 2
    finally:
        c.close()


def replay(c, path):
    """Runs the events of a replay file again and judges them."""
    plan, obs, out = c.path("plan"), c.path("obs"), c.path("out")
    with open(plan, "w") as f:
        for x in json.load(open(path)):
            ev = x["event"]
            ev.pop("i", None)
            f.write(json.dumps(ev) + "\n")
    observe(plan, obs, 0, c.seed)
    verdicts = judge(c.tlc, c.prop, obs, out, seed=c.seed)
    bad = 0
    for ev in read_nd(obs):
        v = verdicts[ev["i"]]
        bad += bool(v)
        print(json.dumps({"event": {k: w for k, w in ev.items() if k != "o"}, "observed": ev["o"], "broken": v})[:3000])
    if bad:
        print("VIOLATION property=%s replay=%s" % (c.prop, path))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
