#!/usr/bin/env python3
"""Runs the simulation of one property: check.py <id>.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
Exit 0: nothing found; 1: VIOLATION line printed; 2: the check itself failed."""
import collections, fcntl, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
OUT = os.path.join(V, "out")
KNOWN = os.path.join(V, "known_findings.txt")
sys.path.insert(0, V)
import build
from props import PROPS

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)

class Worker:
    """One process working on run indices w, w+stride, ..."""
    def __init__(self, ctx, part, w, stride, runs):
        self.ctx, self.part, self.w, self.stride = ctx, part, w, stride
        self.first, self.left, self.attempt = w, runs, 0
        self.reports = []
        self.start()
    def start(self):
        self.out = os.path.join(self.ctx.dir, "%s-%d-%d.json" % (self.part["target"], self.w, self.attempt))
        cmd = [os.path.join(B, self.part["target"] + ".bin"), "--prop", self.part.get("scenario", self.ctx.prop),
               "--seed", str(self.ctx.seed), "--from", str(self.first), "--stride", str(self.stride), "--runs", str(self.left),
               "--max-s", "%.1f" % max(1.0, self.ctx.deadline - time.time()), "--timeout", str(self.part.get("timeout", 25)),
               "--det-every", str(self.part.get("det_every", 40)), "--known", KNOWN, "--out", self.out]
        self.log = open(self.out + ".log", "w")
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, cwd=self.ctx.dir, start_new_session=True)
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()
    def finish(self):
        """-> violation dict or None; restarts itself after one that does not reproduce"""
        self.log.close()
        if not os.path.exists(self.out):
            die("worker failed (%s): %s" % (self.p.returncode, open(self.out + ".log").read()[-800:]))
        d = json.load(open(self.out))
        self.reports.append(d)
        if d["detfail"]:
            self.ctx.detfail += d["detfail"]
            self.ctx.detlog.append(open(self.out + ".log").read()[-400:])
        v = d["violation"]
        if not v:
            return None
        v["part"] = self.part
        if v["class"] in ("hang-outside-simulation", "exit-91", "exit-92", "exit-99", "harness") or not v["reproduced"] or not v["replays"]:
            self.ctx.unconfirmed.append(v)
        else:
            rc, text = replay(self.part, v["replay"])
            v["replay_text"] = text
            m = re.search(r"replay class=(\S+) expected=(\S+)", text)
            if m and m.group(1) == m.group(2):
                return v
            self.ctx.unconfirmed.append(v)
        self.first = v["index"] + self.stride
        self.left -= d["runs"]
        self.attempt += 1
        if self.left > 0 and self.attempt < 6 and time.time() < self.ctx.deadline - 5:
            self.start()
        return None

def replay(part, path):
    r = subprocess.run([os.path.join(B, part["target"] + ".bin"), "--replay", path, "--known", KNOWN, "--timeout", str(part.get("timeout", 25))],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=os.path.dirname(path))
    return r.returncode, r.stdout

class Ctx: pass

def build_targets(parts):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        for t in dict.fromkeys(p["target"] for p in parts):
            build.build(t)

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    for f in (os.path.join(V, "evidence", prop + ".json"),):
        if os.path.exists(f): os.remove(f)
    build_targets(P["parts"])
    t_build = time.time() - t0
    ctx = Ctx()
    ctx.prop, ctx.seed = prop, seed
    ctx.dir = os.path.join(OUT, prop)
    shutil.rmtree(ctx.dir, ignore_errors=True)
    os.makedirs(ctx.dir)
    ctx.detfail, ctx.detlog, ctx.unconfirmed = 0, [], []
    cap = 330 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "3000"))
    ctx.deadline = time.time() + cap
    scale = float(os.environ.get("VERIF_SCALE", "1")) * (1 if tier == "quick" else P.get("thorough", 25))
    # (quick) run counts are fixed per part, so that the seed alone decides what is run
    todo = []
    for part in P["parts"]:
        n = max(WORKERS, int(part["runs"] * scale))
        for w in range(WORKERS):
            todo.append((part, w, WORKERS, n // WORKERS + (1 if w < n % WORKERS else 0)))
    ts = time.time()
    running, done, viol = [], [], None
    try:
        while (todo or running) and not viol:
            while todo and len(running) < WORKERS:
                running.append(Worker(ctx, *todo.pop(0)))
            for w in list(running):
                if w.p.poll() is None: continue
                viol = w.finish()
                if viol: break
                if w.p.poll() is not None:
                    running.remove(w); done.append(w)
            time.sleep(0.02)
    finally:
        for w in running:
            if w.p.poll() is None: w.kill()
    sim_wall = time.time() - ts
    write_evidence(prop, P, tier, seed, done + running, viol, ctx, time.time() - t0, t_build, sim_wall)
    known_lines(prop, done + running)
    if viol:
        rp = os.path.join(ctx.dir, "violation.replay")
        shutil.copy(viol["replay"], rp)
        print("seed %s (run %d), class %s: %s" % (viol["seed"], viol["index"], viol["class"], viol["msg"][:1500]))
        print("run: " + viol["sample"])
        print("trace minimised from %d to %d decisions in %d runs%s" % (viol["trace"], viol["min_trace"], viol["min_tries"],
              "" if viol["deterministic"] else " (event hash differed between repeats: the changed code itself is not deterministic)"))
        print("replay in a fresh process: " + viol["replay_text"].split("\n")[0])
        print("replay with: build/%s.bin --replay %s --verbose" % (viol["part"]["target"], rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if ctx.unconfirmed:
        for v in ctx.unconfirmed[:5]:
            print("unconfirmed: seed %s class %s: %s %s" % (v["seed"], v["class"], v["msg"][:600], v["stderr"][:300]))
        die("%d violation(s) did not reproduce" % len(ctx.unconfirmed))
    if ctx.detfail:
        die("simulation not deterministic: " + " ".join(ctx.detlog)[:600])
    print("%s held on %d simulated runs (%.0f s)" % (prop, sum(r["runs"] for w in done for r in w.reports), sim_wall))
    return 0

def known_lines(prop, workers):
    cnt = collections.Counter()
    for w in workers:
        for r in w.reports: cnt.update(r["known"])
    if not os.path.exists(KNOWN): return
    for l in open(KNOWN):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            print("KNOWN-FINDING: property=%s %s (met %d times)" % (prop, m.group(3).strip(), cnt.get(m.group(2), 0)))

def write_evidence(prop, P, tier, seed, workers, viol, ctx, wall, t_build, sim_wall):
    tot = collections.Counter(); faults = collections.Counter(); probes = collections.Counter()
    sched, states, samples = set(), set(), []
    parts = {}
    for w in workers:
        for r in w.reports:
            for k in ("runs", "nontrivial", "steps", "switches", "sim_ns", "detruns", "detfail"): tot[k] += r[k]
            faults.update(r["faults"]); probes.update(r["probes"])
            sched.update(r["scheds"]); states.update(r["states"])
            if len(samples) < 8: samples += r["samples"][:1]
            k = w.part["target"] + ":" + w.part.get("scenario", prop)
            parts[k] = parts.get(k, 0) + r["runs"]
    h = max(sim_wall, 1e-6) / 3600
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(sched),
        "rule": P["rule"] + " Distinct: by hash of every decision, event and thread switch of the run.",
        "samples": samples or ["(none)"],
        "runs_per_part": parts,
        "nontrivial_runs": tot["nontrivial"],
        "simulated_runs_per_hour": round(tot["runs"] / h), "seeds_per_hour": round(tot["runs"] / h),
        "simulated_time_s": round(tot["sim_ns"] / 1e9, 3),
        "scheduling_steps": tot["steps"], "thread_switches": tot["switches"],
        "faults_injected": dict(sorted(faults.items())),
        "rare_conditions_reached": dict(sorted(probes.items())),
        "distinct_states": len(states), "state_measure": P.get("state_measure", "abstract states the harness reports (operation phase, progress, outcome)"),
        "determinism_recheck": {"runs_repeated": tot["detruns"], "mismatches": tot["detfail"], "how": "same seed run again and replayed from its recorded trace; event and schedule hashes compared"},
        "real_components": P["real"], "stub_components": P["stub"],
    }
    if viol: cov["violation"] = {k: viol[k] for k in ("seed", "index", "class", "msg", "trace", "min_trace")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P["assume"], "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    sys.exit(main())
