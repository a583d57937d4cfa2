#!/usr/bin/env python3
"""Runs the simulation that decides one property.

  check.py --prop C01            the check of a property (tier from VERIF_TIER)
  check.py --build               builds everything (setup)
  check.py --replay FILE [-v]    replays a recorded violation
  check.py --determinism [C01]   runs the same seeds in many processes and compares the event logs

The simulator is rebuilt from /repo's working tree, in two configurations:
'dbg' (assertions on) and 'rel' (NDEBUG, -O2). The seed is VERIF_SEED.
"""
import argparse, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "replays"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
JOBS = os.cpu_count() or 4

def units(prefix):
    return sorted(f[:-4] for f in os.listdir(os.path.join(HERE, "worlds")) if f.startswith(prefix) and f.endswith(".cpp"))


LIFE, WALK, BULK, EIN = units("life_"), units("walk_"), units("bulk_"), units("ein_")
CONC, TILE, VIEW = units("conc_"), units("tile_"), units("view_")
# property: translation units, worlds with weights, runs per configuration (quick)
PROPS = {
    "C01": (LIFE, "life.*=2,life.auto.*=1", 1200000),
    "C02": (LIFE, "life.*=2,life.auto.*=1", 1200000),
    "C03": (LIFE, "life.*=2,life.auto.*=1", 1200000),
    "C04": (LIFE, "life.*=2,life.auto.*=1", 1200000),
    "C05": (LIFE, "life.*=2,life.auto.*=1", 1200000),
    "C06": (LIFE + ["bulk_a", "bulk_d", "view_int", "view_obj", "view_a", "view_c", "walk_b", "walk_e"],
            "life.*=2,life.auto.*=1,bulk.*=1,view.*=1,walk.*=1", 1400000),
    "C07": (LIFE, "life.auto.*=1", 1200000),
    "C08": (VIEW, "view.*=1", 2000000),
    "C09": (WALK, "walk.*=1", 1200000),
    "C10": (BULK, "bulk.*=1", 1500000),
    "C11": (EIN, "ein.*=1", 1000000),
    "C12": (CONC, "conc.*=1", 600000),
    "C13": (TILE, "tile.*=1", 800000),
}
CONFIGS = {
    "dbg": ["-O1"],
    "rel": ["-O2", "-DNDEBUG"],
}
STUBS = {
    "real": "everything under /repo/include/array, instantiated unmodified in every world",
    "stub": "allocators (SimAlloc, operator new inside library calls), element type sim::obj, callbacks, "
            "thread scheduling (real threads released one at a time by the seeded scheduler)",
}
RULE = ("A run is one seeded program (operations, arguments, fault plan, schedule) executed in its own simulated memory. "
        "It is non-trivial when at least one injected fault fired inside a library operation or the scheduler switched "
        "between tasks; distinct runs are counted by the hash of the event log.")


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def build(units, configs):
    """Compiles core and units in the given configurations; returns {config: binary}
    and the units that do not compile (the others are still searched)."""
    deps = tree_hash([os.path.join(REPO, "include"), os.path.join(HERE, "sim"), os.path.join(HERE, "worlds"),
                      os.path.abspath(__file__)])
    out = os.path.join(BUILD, deps)
    os.makedirs(out, exist_ok=True)
    # Older builds are not needed any more.
    for d in os.listdir(BUILD):
        if d != deps and len(d) == 16:
            subprocess.run(["rm", "-rf", os.path.join(BUILD, d)])
    jobs = []
    core = os.path.join(out, "core.o")
    if not os.path.exists(core):
        jobs.append((core, ["clang++", "-std=c++17", "-O2", "-g", "-w", "-c", os.path.join(HERE, "sim/core.cpp")]))
    for u in units:
        for c in configs:
            o = os.path.join(out, "%s.%s.o" % (u, c))
            if not os.path.exists(o):
                jobs.append((o, ["clang++", "-std=c++17", "-g1", "-w"] + CONFIGS[c] +
                             ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
                              "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "sim"),
                              "-c", os.path.join(HERE, "worlds", u + ".cpp")]))

    def run(job):
        tmp = job[0] + ".%d.tmp" % os.getpid()
        rc, txt = sh(job[1] + ["-o", tmp])
        if rc == 0:
            os.rename(tmp, job[0])
        return rc, txt, job
    bad = set()
    with ThreadPoolExecutor(JOBS) as ex:
        for rc, txt, job in ex.map(run, jobs):
            if rc:
                bad.add(os.path.basename(job[1][-1])[:-4])
                print("BUILD FAILED " + job[1][-1])
                print("\n".join([l for l in txt.splitlines() if "error" in l][:10] or txt.splitlines()[:10]))
    units = [u for u in units if u not in bad]
    if not units or "core" in bad:
        sys.exit(2)
    bins = {}
    key = hashlib.sha256(" ".join(sorted(units)).encode()).hexdigest()[:8]
    for c in configs:
        b = os.path.join(out, "sim-%s-%s" % (key, c))
        if not os.path.exists(b):
            tmp = b + ".%d.tmp" % os.getpid()
            rc, txt = sh(["clang++", core] + [os.path.join(out, "%s.%s.o" % (u, c)) for u in sorted(units)] +
                         ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock", "-lpthread", "-o", tmp])
            if rc:
                print("LINK FAILED\n" + txt[:2000])
                sys.exit(2)
            os.rename(tmp, b)
        bins[c] = b
    return bins, sorted(bad)


def known_findings():
    """Open findings: 'open: property=<id> probe=<name> <text>'."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open: "):
                f = dict(w.split("=", 1) for w in l.split()[1:3])
                res.append((f["property"], f["probe"], " ".join(l.split()[3:])))
    return res


def check(prop, tier, seed):
    t0 = time.time()
    units, worlds, runs = PROPS[prop]
    cap = 150.0
    if tier == "thorough":
        runs, cap = runs * 400, 1500.0
    bins, broken = build(units, list(CONFIGS))
    t_build = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    res, violation, error = {}, None, None
    for i, c in enumerate(CONFIGS):
        out = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, c, os.getpid()))
        cmd = [bins[c], "explore", "--prop", prop[1:].lstrip("0"), "--seed", str(seed), "--start", str(i << 40),
               "--runs", str(runs), "--workers", str(JOBS), "--max-seconds", str(cap), "--worlds", worlds,
               "--out", out, "--replay-dir", REPLAYS, "--tag", c]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("[%s] %s" % (c, " | ".join(l[:600] for l in p.stdout.strip().splitlines())))
        sys.stdout.flush()
        if os.path.exists(out):
            res[c] = json.load(open(out))
            os.remove(out)
        if p.returncode == 1 and c in res and "violation" in res[c]:
            violation = res[c]["violation"]
            break
        if p.returncode != 0:
            error = p.stdout.strip().splitlines()[-1:] or ["no output"]
            break
    wall = time.time() - t0
    write_evidence(prop, tier, seed, worlds, res, t_build, wall, violation)
    if error:
        print("ERROR " + error[0])
        return 2
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if broken:
        print("ERROR these worlds do not compile: " + " ".join(broken))
        return 2
    for p, probe, text in known_findings():
        if p == prop and sum(r["probes"].get(probe, 0) for r in res.values()):
            print("KNOWN-FINDING: property=%s %s" % (p, text))
    print("OK property=%s runs=%d" % (prop, sum(r["runs"] for r in res.values())))
    return 0


def write_evidence(prop, tier, seed, worlds, res, t_build, wall, violation):
    def tot(k):
        return sum(r.get(k, 0) for r in res.values())

    def merge(k):
        m = {}
        for r in res.values():
            for a, b in r.get(k, {}).items():
                m[a] = m.get(a, 0) + b
        return m
    sim_s = tot("wall_s")
    samples = []
    for c, r in res.items():
        for s in r.get("samples", []):
            samples.append({"configuration": c, "program": s})
    if violation:
        samples.insert(0, {"violation": violation})
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_runs"),
        "nontrivial_runs": tot("nontrivial_runs"),
        "rule": RULE,
        "samples": samples,
        "runs_per_hour": round(tot("runs") / sim_s * 3600) if sim_s else 0,
        "seeds_per_hour": round(tot("runs") / sim_s * 3600) if sim_s else 0,
        "seed_base": seed,
        "simulated_time": {"unit": "simulator steps (instrumented memory accesses, allocations, element operations; the "
                                   "library has no clock or timer)", "steps": tot("steps"), "operations": tot("ops")},
        "faults_fired": merge("faults_fired"),
        "faults_planned": merge("faults_planned"),
        "task_switches": tot("task_switches"),
        "scheduling_points": tot("scheduling_points"),
        "distinct_interleavings": {"measure": "hash of the recorded switch list of a run (4M-bit table)", "count": tot("distinct_schedules")},
        "distinct_states": {"measure": "hash of the abstract population state after an operation (4M-bit table)", "count": tot("distinct_states")},
        "allocations": tot("allocations"),
        "releases": tot("releases"),
        "element_operations": tot("element_ops"),
        "probes": merge("probes"),
        "runs_ended_by_other_properties": tot("other_property_runs"),
        "other_property_classes": merge("other_property_classes"),
        "worlds": merge("world_runs"),
        "world_selection": worlds,
        "configurations": {c: " ".join(CONFIGS[c]) for c in res},
        "components": STUBS,
        "digests": {c: r.get("digest") for c, r in res.items()},
        "build_s": round(t_build, 1),
    }
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "seeded sampling of histories, schedules and fault plans: absence of a violation is evidence, not proof",
            "compiled with clang 18; worlds are instrumented so that every memory access is seen",
            "interleavings are sequentially consistent; data races are found by happens-before, not by weak-memory effects",
        ],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)


def replay(path, verbose):
    txt = open(path).read()
    prop = [l.split()[1] for l in txt.splitlines() if l.startswith("property ")][0]
    tag = [l.split("replay with: ")[1].strip() for l in txt.splitlines() if "replay with: " in l]
    cfg = tag[0] if tag and tag[0] in CONFIGS else "dbg"
    b = build(PROPS[prop][0], [cfg])[0][cfg]
    return subprocess.call([b, "replay", "--file", path] + (["-v"] if verbose else []))


def determinism(props):
    """The same seeds, one process per run and many runs per process, and in
    batches with different numbers of workers: identical event logs."""
    ok = True
    for prop in props:
        units, worlds, _ = PROPS[prop]
        for c, b in build(units, list(CONFIGS))[0].items():
            n = prop[1:].lstrip("0")
            logs = []
            for w in ("0", "1"):
                outs = []
                for start in (0, 1000, 5000):
                    outs.append(sh([b, "hashes", "--prop", n, "--seed", "1", "--start", str(start), "--runs", "300",
                                    "--workers", w, "--worlds", worlds])[1])
                logs.append("".join(outs))
            same = logs[0] == logs[1]
            digs = set()
            for w in (1, 3, 8):
                out = os.path.join(BUILD, "det.json")
                sh([b, "explore", "--prop", n, "--seed", "7", "--runs", "4000", "--workers", str(w), "--max-seconds", "300",
                    "--worlds", worlds, "--out", out, "--tag", c])
                digs.add(json.load(open(out))["digest"])
            print("%s %s: %d logs %s; batch digests with 1, 3, 8 workers %s" % (
                prop, c, len(logs[0].splitlines()), "identical" if same else "DIFFER", "identical" if len(digs) == 1 else "DIFFER"))
            ok = ok and same and len(digs) == 1
    return 0 if ok else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--determinism", nargs="*")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.build:
        broken = build(sorted({u for p in PROPS.values() for u in p[0]}), list(CONFIGS))[1]
        print("built")
        return 2 if broken else 0
    if a.replay:
        return replay(a.replay, a.v)
    if a.determinism is not None:
        return determinism(a.determinism or list(PROPS))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return check(a.prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
