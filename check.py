#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py --property P01 [--tier quick|thorough]   run the check
  check.py --replay FILE                            reproduce a violation exactly
  check.py --setup                                  build the simulator once

The simulator is rebuilt from the current working tree of /repo on every run.
"""
import argparse, glob, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from plan import PLAN, ASSUMPTIONS  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def build(out):
    t = time.time()
    p = subprocess.run(["bash", os.path.join(VERIF, "build.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(os.path.join(out, "simtest")):
        print(p.stdout[-6000:])
        print("ERROR: the simulator does not build from the current tree")
        sys.exit(2)
    return time.time() - t


def known_findings():
    """Lines: 'known: property=P05 class=x scenario=y what'; 'fixed: ...' lines suppress nothing."""
    res = []
    try:
        lines = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    except FileNotFoundError:
        return res
    for l in lines:
        if not l.startswith("known:"):
            continue
        words = l[len("known:"):].split()
        f = {w.split("=", 1)[0]: w.split("=", 1)[1] for w in words[:3] if "=" in w}
        f["what"] = " ".join(words[2:])
        res.append(f)
    return res


class Pool:
    """Runs batches of seeds in fresh worker processes."""

    def __init__(self, exe, work, cap, known, replay_dir, minimize):
        self.exe, self.work, self.cap, self.known = exe, work, cap, known
        self.replay_dir, self.minimize = replay_dir, minimize
        self.start = time.time()
        self.lock = threading.Lock()
        self.stop = False
        self.procs = set()
        self.outs, self.crashes = [], []
        self.n = 0

    def run(self, args, timeout):
        env = dict(os.environ, GOTRACEBACK="system", VERIF_COMPILE_CACHE=os.path.join(self.work, "compiled"))
        p = subprocess.Popen([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.work, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            out, rc = (out or "") + "\n[timeout]", -999
        with self.lock:
            self.procs.discard(p)
        return rc, out

    def batch(self, scenario, seed, count, until):
        with self.lock:
            self.n += 1
            path = os.path.join(self.work, "out-%d.json" % self.n)
        rc, out = self.run(["-scenario=" + scenario, "-seed=%d" % seed, "-count=%d" % count, "-out=" + path, "-replay-dir=" + self.replay_dir,
                            "-known=" + self.known, "-minimize=%g" % self.minimize, "-until=%g" % until], until + self.minimize + 120)
        if self.stop:
            return None
        try:
            o = json.load(open(path))
            os.unlink(path)
        except (OSError, ValueError):
            with self.lock:
                self.crashes.append((scenario, seed, count, rc, out[-3000:]))
            return None
        with self.lock:
            self.outs.append(o)
            if o.get("violations"):
                self.stop = True
        return o

    def left(self):
        return self.cap - (time.time() - self.start)

    def explore(self, jobs):
        """jobs: iterator of (scenario, seed, count)."""
        it = iter(jobs)

        def loop():
            while not self.stop and self.left() > 0.5 and len(self.crashes) < 3:
                with self.lock:
                    job = next(it, None)
                if job is None:
                    return
                self.batch(*job, until=max(self.left(), 0.5))

        ts = [threading.Thread(target=loop) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def confirm(exe, work, path, tries=2):
    """A violation is only reported when its replay file reproduces it in a fresh process."""
    for _ in range(tries):
        try:
            p = subprocess.run([exe, "-replay=" + path], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            if json.load(open(path)).get("seed_only"):
                return True, "the run does not terminate"
            continue
        if json.load(open(path)).get("seed_only"):
            if p.returncode != 0:
                return True, p.stdout
        elif p.returncode == 1 and "reproduced:" in p.stdout:
            return True, p.stdout
    return False, ""


def narrow_crash(pool, crash):
    """Finds the seed at which a worker process died or hung, twice in a row."""
    scenario, seed, count, rc, out = crash
    lo, n = seed, count
    deadline = time.time() + 180
    # Bisection: the crash is deterministic in the seed.
    while n > 1 and time.time() < deadline:
        half = n // 2
        r, o = pool.run(["-scenario=" + scenario, "-seed=%d" % lo, "-count=%d" % half, "-out=" + os.path.join(pool.work, "narrow.json"), "-known=" + pool.known], 60)
        if r not in (0,):
            n, out = half, o
        else:
            lo, n = lo + half, n - half
    bad = 0
    for _ in range(2):
        r, o = pool.run(["-scenario=" + scenario, "-seed=%d" % lo, "-count=1", "-out=" + os.path.join(pool.work, "narrow.json")], 60)
        if r != 0:
            bad, out = bad + 1, o
    return (lo, out) if bad == 2 else None


def jobs_for(entries, base, limit):
    """Interleaves batches of the scenarios; seeds are consecutive per scenario."""
    state = [[e["scenario"], base, 0, e.get("batch", 100), e["runs"] * limit, e.get("weight", 1)] for e in entries]
    while True:
        any_left = False
        for s in state:
            for _ in range(s[5]):
                if s[2] < s[4]:
                    n = int(min(s[3], s[4] - s[2]))
                    yield (s[0], s[1] + s[2], n)
                    s[2] += n
                    any_left = True
        if not any_left:
            return


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    entries = PLAN[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    work = tempfile.mkdtemp(prefix="vsim-build-")
    try:
        return check_in(prop, tier, seed, entries, work, ev_path, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, seed, entries, work, ev_path, t0):
    build_s = build(work)
    os.makedirs(os.path.join(work, "compiled"))
    exe = os.path.join(work, "simtest")
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    for f in glob.glob(os.path.join(replay_dir, prop + "-*.json")):
        os.unlink(f)
    findings = [f for f in known_findings() if f.get("property") == prop]
    known = os.path.join(work, "known")
    with open(known, "w") as f:
        for k in findings:
            f.write("%s/%s\n" % (k["property"], k["class"]))
    quick = tier == "quick"
    cap = float(os.environ.get("VERIF_CAP", 45 if quick else 780))
    limit = 1 if quick else 10**6
    # Each seed of VERIF_SEED starts its own range of run seeds.
    base = 1 + (seed - 1) * 10_000_000

    pool = Pool(exe, work, cap, known, replay_dir, 30 if quick else 60)
    pool.explore(jobs_for(entries, base, limit))

    notes, confirmed = [], []
    for o in pool.outs:
        for path in o.get("violations") or []:
            ok, out = confirm(exe, work, path)
            if ok:
                confirmed.append(path)
            else:
                notes.append("not reproduced by its replay file: " + path)
    if not confirmed:
        for crash in pool.crashes[:2]:
            res = narrow_crash(pool, crash)
            if res is None:
                notes.append("worker for %s seeds %d+%d ended with %s, not reproducible: %s" % (crash[0], crash[1], crash[2], crash[3], crash[4][-500:]))
                continue
            path = os.path.join(replay_dir, "%s-%s-crash-%d.json" % (prop, crash[0], res[0]))
            json.dump({"property": prop, "scenario": crash[0], "seed": res[0], "seed_only": True, "violation": {"property": prop, "class": "crash", "detail": "the process running the simulated system dies or hangs"}, "slot": "", "output": res[1][-6000:]}, open(path, "w"), indent=1)
            ok, _ = confirm(exe, work, path)
            if ok:
                confirmed.append(path)
                break
    explored = time.time() - pool.start

    # Determinism: the same seeds, in fresh processes, give identical traces.
    det = {"compared": 0, "identical": 0}
    first = {}
    for o in pool.outs:
        first.setdefault(o["scenario"], o)
    for sc, o in first.items():
        seeds = sorted(int(s) for s in o["digests"])
        if not seeds:
            continue
        path = os.path.join(work, "det.json")
        rc, _ = pool.run(["-scenario=" + sc, "-seed=%d" % seeds[0], "-count=%d" % len(seeds), "-out=" + path], 120)
        if rc == 0:
            d = json.load(open(path))["digests"]
            for s in seeds:
                if str(s) in d:
                    det["compared"] += 1
                    det["identical"] += d[str(s)] == o["digests"][str(s)]

    runs = sum(o["runs"] for o in pool.outs)
    counters, per, sched, trace, infra, samples, real, stub = {}, {}, set(), set(), [], [], [], []
    for o in pool.outs:
        for k, v in o["counters"].items():
            counters[k] = counters.get(k, 0) + v
        p = per.setdefault(o["scenario"], {"runs": 0, "steps": 0, "max_steps": 0, "sim_s": 0.0, "decisions": 0})
        p["runs"] += o["runs"]
        p["steps"] += o["steps"]
        p["sim_s"] += o["sim_s"]
        p["decisions"] += o["choices"]
        p["max_steps"] = max(p["max_steps"], o["max_steps"])
        sched |= set((o["scenario"], h) for h in o["sched_hashes"] or [])
        trace |= set((o["scenario"], h) for h in o["trace_hashes"] or [])
        infra += o["infra"] or []
        if len([s for s in samples if s["scenario"] == o["scenario"]]) < 2:
            samples += [{"scenario": o["scenario"], "run": s} for s in (o["samples"] or [])[:2]]
        real += [x for x in o["real"] or [] if x not in real]
        stub += [x for x in o["stub"] or [] if x not in stub]
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault:") or k in ("preemption", "stall")}
    probes = {k: v for k, v in sorted(counters.items()) if k not in faults}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sched),
            "rule": "one evaluation is one simulated run of the whole scenario under one seed; a run is non-trivial when at least one scheduling, "
                    "timing, input or fault decision differs from the default one, and two runs are distinct when the sequences of tasks picked by the scheduler differ",
            "samples": samples[:6],
            "distinct_histories": len(trace),
            "runs_per_hour": round(runs / max(explored, 0.001) * 3600),
            "seeds_per_hour": round(runs / max(explored, 0.001) * 3600),
            "simulated_seconds": round(sum(p["sim_s"] for p in per.values()), 1),
            "scheduling_steps": sum(p["steps"] for p in per.values()),
            "faults_and_perturbations": faults,
            "probes": probes,
            "scenarios": per,
            "seed_range_start": base,
            "determinism": det,
            "components_real": real,
            "components_stub": stub,
            "infrastructure_errors": infra[:10],
            "notes": notes,
            "build_s": round(build_s, 1),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    for n in notes:
        print("note:", n)
    if det["compared"] != det["identical"]:
        print("note: %d of %d re-executed seeds differ" % (det["compared"] - det["identical"], det["compared"]))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if confirmed:
        rp = json.load(open(confirmed[0]))
        print("%s [%s] scenario %s seed %s: %s" % (rp["property"], rp["violation"]["class"], rp["scenario"], rp["seed"], rp["violation"]["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0]))
        return 1
    if runs == 0 or len(infra) > max(3, runs // 10):
        print("ERROR: no usable run: %s" % (infra[:3] or pool.crashes[:1]))
        return 2
    print("%s held on %d simulated runs (%d distinct schedules, %d faults, %.0f simulated seconds) in %.1f s" % (
        prop, runs, len(sched), sum(v for k, v in faults.items() if k.startswith("fault:")), ev["coverage"]["simulated_seconds"], time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup or a.replay:
        work = tempfile.mkdtemp(prefix="vsim-build-")
        try:
            build(work)
            if a.setup:
                print("simulator builds")
                return 0
            return subprocess.run([os.path.join(work, "simtest"), "-replay=" + os.path.abspath(a.replay)], cwd=work).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return check(a.property, a.tier)


if __name__ == "__main__":
    sys.exit(main())
