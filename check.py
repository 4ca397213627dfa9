#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--time SECONDS] [--seed N]

Decides one property by seeded deterministic simulation. Exit 0: held on every simulated run.
Exit 1 and a line VIOLATION property=<id> replay=<path>: broken. Anything else: an error of the check."""
import json, os, re, shutil, subprocess, sys, time, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF)
import simbuild, families

def fail(msg):
    print("ERROR: " + msg, file=sys.stderr); sys.exit(2)

def findings():
    """Known findings: {"property":..., "class":..., "match": regular expression over the violation's message}."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("finding: "):
            r.append(json.loads(line[9:]))
    return r

class Family:
    """One simulator executable: builds it, searches with worker processes, replays."""
    def __init__(self, name, prop, tier, seed, scratch):
        self.name, self.prop, self.tier, self.seed, self.scratch = name, prop, tier, seed, scratch
        self.f = families.FAMILIES[name]

    def build(self):
        self.exe = self.f["build"]()

    def start(self, seconds, workers):
        self.procs = []
        for i in range(workers):
            out = os.path.join(self.scratch, f"{self.name}.{i}")
            cmd = self.exe + ["search", "--props", self.prop, "--seed", str(self.seed), "--from", str(i), "--stride", str(workers),
                              "--time", str(seconds), "--min", "25" if self.tier == "quick" else "120", "--tier", self.tier, "--out", out]
            log = open(out + ".log", "w")
            self.procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, start_new_session=True), out))

    def poll(self):
        """The replay file of a violation, or None."""
        for p, out in self.procs:
            if p.poll() is not None and os.path.exists(out + ".replay.json"):
                return out + ".replay.json"
        return None

    def running(self):
        return any(p.poll() is None for p, _ in self.procs)

    def stop(self):
        for p, _ in self.procs:
            if p.poll() is None:
                try: os.killpg(p.pid, 9)
                except OSError: pass
        for p, _ in self.procs: p.wait()

    def results(self, need):
        r = []
        for p, out in self.procs:
            if os.path.exists(out + ".json"):
                r.append(json.load(open(out + ".json")))
            elif need:
                log = open(out + ".log").read()
                fail(f"worker of {self.name} ended with status {p.returncode} without a result\n{log[-2000:]}")
        return r

    def replay(self, path):
        """Replays in a fresh process. True: the same violation with the same history."""
        r = subprocess.run(self.exe + ["replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode == 1 and "identical to the recorded one" in r.stdout, r.stdout

def main():
    args = sys.argv[1:]
    if not args: fail(__doc__)
    if args[0] == "--setup": return setup()
    prop = args[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); seconds = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]
        elif args[i] == "--time": seconds = float(args[i + 1])
        elif args[i] == "--seed": seed = int(args[i + 1])
        elif args[i] == "--replay":
            return replay(args[i + 1])
        i += 2
    spec = families.PROPERTIES[prop]
    if seconds is None: seconds = spec["time"][0 if tier == "quick" else 1]
    t0 = time.time(); scratch = tempfile.mkdtemp(prefix="maikesim.")
    try:
        rc = decide(prop, spec, tier, seed, seconds, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def setup():
    """Builds the simulators once, so that an error shows early. Every check builds again from the current tree."""
    for n in families.FAMILIES:
        t = time.time(); families.FAMILIES[n]["build"](); print(f"{n}: built in {time.time() - t:.1f} s")
    sys.exit(0)

def replay(path):
    j = json.load(open(path)); f = Family(j.get("family", "build"), j["property"], "quick", 1, None); f.build()
    r = subprocess.run(f.exe + ["replay", path, "-v"]); sys.exit(r.returncode)

def decide(prop, spec, tier, seed, seconds, scratch, t0):
    fams = []; notes = []
    for name in spec["families"]:
        f = Family(name, prop, tier, seed, scratch)
        try:
            f.build(); fams.append(f)
        except simbuild.BuildError as e:
            if families.FAMILIES[name].get("optional"):
                notes.append(f"the {name} simulator does not fit this tree and was left out: {str(e).strip().splitlines()[0][:200]}")
                print(notes[-1], file=sys.stderr)
            else:
                fail(f"cannot build the {name} simulator:\n{e}")
    if not fams: fail("no simulator fits this tree: " + "; ".join(notes))
    notes += simbuild.LEFT_OUT
    built = time.time() - t0
    cores = max(2, min(8, os.cpu_count() or 8)); share = sum(families.FAMILIES[f.name]["share"] for f in fams)
    for f in fams:
        f.start(seconds, max(1, round(cores * families.FAMILIES[f.name]["share"] / share)))
    known = findings(); hit = None; shown = set(); limit = t0 + built + seconds + (60 if tier == "quick" else 300)
    while any(f.running() for f in fams) and time.time() < limit:
        time.sleep(0.2)
        for f in fams:
            p = f.poll()
            if p: hit = (f, p); break
        if hit: break
    if not hit:
        for f in fams:
            p = f.poll()
            if p: hit = (f, p); break
    for f in fams: f.stop()
    rc = 0
    if hit:
        f, p = hit; same, text = f.replay(p); again, _ = f.replay(p) if same else (False, "")
        if not (same and again): fail(f"a violation of {prop} does not replay exactly in a fresh process:\n{text[-2000:]}")
        j = json.load(open(p)); j["family"] = f.name
        for k in known:
            if k["property"] == prop and k["class"] == j["class"] and re.search(k["match"], j["message"]):
                print(f"KNOWN-FINDING: property={prop} {k['what']}"); break
        else:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True); dst = os.path.join(VERIF, "replays", f"{prop}.json")
            json.dump(j, open(dst, "w"), indent=1); print(f"{j['message']}\n({j.get('summary','')}; scenario {j['scenario']}, seed {j['seed']}; replay: python3 check.py {prop} --replay {dst})")
            print(f"VIOLATION property={prop} replay={dst}", flush=True); rc = 1
    evidence(prop, spec, tier, seed, fams, rc, t0, built, notes, need=not hit)
    return rc

def evidence(prop, spec, tier, seed, fams, rc, t0, built, notes, need):
    cov = {"evaluations": 0, "distinct_nontrivial": 0}; sigs = set(); faults = {}; cnt = {}; scn = {}; samples = []; tot = {}; nondet = recheck = runs = 0; search_s = 0
    for f in fams:
        for r in f.results(need):
            cov["evaluations"] += r.get("invocations", r["runs"]); runs += r["runs"]; nondet += r["nondet"]; recheck += r.get("rechecked", 0); search_s = max(search_s, r.get("wall", 0))
            sigs.update(f.name + x for x in r["sigs"])
            for k in ("invocations", "crashes", "points", "accesses", "switches", "mem_preempts", "simtime_ns", "threads", "processes", "nontrivial", "worlds"):
                tot[k] = tot.get(k, 0) + r.get(k, 0)
            for src, dst in ((r["faults"], faults), (r["counters"], cnt), (r["scenarios"], scn)):
                for k, v in src.items(): dst[k] = dst.get(k, 0) + v
            if len(samples) < 6: samples += r["samples"][:1]
    if nondet and rc == 0: fail(f"{nondet} runs did not repeat exactly")
    if need and cov["evaluations"] == 0: fail("no run was made")
    cov["distinct_nontrivial"] = len(sigs); wall = time.time() - t0
    cov["rule"] = ("one seed is one scenario run: a generated world (project, history, options), then every schedule, delay and fault decision drawn from the seed; an evaluation is one simulated execution of the system inside it. "
                   "Non-trivial: at least one scheduling decision among several runnable threads or processes, or an injected fault or crash. "
                   "Distinct: by the hash of the sequence of scheduling decisions and fault sites of the execution")
    cov["samples"] = samples or ["(the run ended with a violation before a sample was taken)"]
    cov["runs_per_hour"] = int(runs * 3600 / max(1e-9, search_s or wall)); cov["scenario_runs"] = runs; cov["executions_per_hour"] = int(cov["evaluations"] * 3600 / max(1e-9, search_s or wall))
    cov["simulated_seconds"] = round(tot.get("simtime_ns", 0) / 1e9, 3); cov["faults_injected"] = faults; cov["conditions_hit"] = cnt; cov["scenarios"] = scn
    cov["totals"] = {k: v for k, v in tot.items() if k != "simtime_ns"}; cov["determinism_rechecks"] = recheck; cov["build_s"] = round(built, 1)
    cov["real_components"] = sorted({c for f in fams for c in families.FAMILIES[f.name]["real"]}); cov["stub_components"] = sorted({c for f in fams for c in families.FAMILIES[f.name]["stub"]})
    if notes: cov["left_out"] = notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": rc}
    json.dump(e, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    main()
