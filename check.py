#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--replay FILE]

Builds the simulator from /repo's working tree, searches seeded runs on all cores, and reports.
exit 0: held on everything explored; exit 1: violation (line VIOLATION ...); anything else: error of the check."""
import argparse, json, os, subprocess, sys, time, tempfile, shutil, array, hashlib, glob
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from catalogue import RULES, REAL, STUBS, PROBES, QUICK, THOROUGH
CORES = 8

def sim(exe, md, *a, timeout=None):
    p = subprocess.run([exe, md] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode or not p.stdout.strip(): raise RuntimeError("simulator failed (%d): %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-1500:]))
    return json.loads(p.stdout)

def known_findings(pid):
    """Lines "known: property=<id> key=<key> <what fails>"; the key names the one deviation the simulator's oracle then accepts."""
    r = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if l.startswith("known: property=%s key=" % pid):
            key, _, what = l.partition("key=")[2].partition(" ")
            r.append((key, what))
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--property", required=True); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--runs", type=int); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(); pid = a.property; t0 = time.time()
    variant = "thr" if pid in ("C06", "C19") else "base"
    d, exe = B.build(variant)
    os.environ["SIM_KNOWN"] = ",".join(k for k, _ in known_findings(pid))
    scratch = tempfile.mkdtemp(prefix="sim-")
    try:
        if a.replay: return replay(a, pid, d, exe, scratch)
        runs, cap = (QUICK if a.tier == "quick" else THOROUGH)[pid]
        if a.seconds: cap = a.seconds; runs = 10 ** 9
        if a.runs: runs = a.runs
        for attempt in range(3):             # a failure that does not replay is not reported; the search goes on with other seeds
            rc = search(a, pid, d, exe, scratch, runs, cap, t0)
            if rc != 3: return rc
            a.seed += 7919
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def search(a, pid, d, exe, scratch, runs, cap, t0):
    ws = []
    for w in range(CORES):
        n = (runs - w + CORES - 1) // CORES
        ws.append(subprocess.Popen([exe, d, "search", pid, str(a.seed), str(w), str(n), str(CORES), str(cap), "%s/h%d" % (scratch, w), "%s/e%d" % (scratch, w)], stdout=open("%s/o%d" % (scratch, w), "w"), stderr=subprocess.DEVNULL))
    bad = None; res = {}
    while len(res) < CORES:
        time.sleep(0.05)
        for w, p in enumerate(ws):
            if w in res or p.poll() is None: continue
            try: res[w] = json.load(open("%s/o%d" % (scratch, w)))
            except ValueError: raise RuntimeError("worker %d of the search failed (%s)" % (w, p.returncode))
            if res[w]["rc"] != 0 and bad is None: bad = w
        if bad is not None: break
    if bad is not None:
        time.sleep(0.3)
        for w, p in enumerate(ws):
            if w in res: continue
            if p.poll() is None: subprocess.run(["pkill", "-KILL", "-P", str(p.pid)]); p.kill(); p.wait(); continue
            try: res[w] = json.load(open("%s/o%d" % (scratch, w)))
            except ValueError: pass
    return report(a, pid, d, exe, scratch, res, bad, time.time() - t0, t0)

def add(res, k): return sum(r[k] for r in res.values())
def report(a, pid, d, exe, scratch, res, bad, wall, t0):
    viol = 0; rc = 0; known = known_findings(pid)
    for m, what in known: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if bad is not None:
        r = res[bad]; asan = open("%s/e%d" % (scratch, bad)).read() if os.path.exists("%s/e%d" % (scratch, bad)) else ""
        if r["rc"] not in (3, 66, 67) or r["cls"].startswith("harness-crash"):
            print("ERROR: simulator ended with %s in run %d, class %r\n%s" % (r["rc"], r["run"], r["cls"], asan[-3000:])); rc = 2
        else:
            rc = violation(a, pid, d, exe, scratch, r, asan); viol = 1
    hs = set()
    for w in res:
        f = "%s/h%d" % (scratch, w)
        if os.path.exists(f):
            x = array.array("Q"); b = open(f, "rb").read(); x.frombytes(b[:len(b) // 8 * 8]); hs.update(x)
    cov = 0
    for r in res.values(): cov |= int(r["cov"], 16)
    faults = {k: sum(r["faults"][k] for r in res.values()) for k in next(iter(res.values()))["faults"]}
    probes = {n: sum(r["probes"][i] for r in res.values()) for i, n in enumerate(PROBES)}
    done = add(res, "done"); sw = max((r["wall"] for r in res.values()), default=0) or 1e-9
    samples = []
    if not a.no_evidence and rc < 2:
        for run in (0, 1, 2, 3, 5, 8, 13):
            tf = "%s/t%d" % (scratch, run)
            try: o = sim(exe, d, "one", pid, a.seed, "run", run, tf, timeout=200)
            except Exception: continue
            txt = open(tf, errors="replace").read() if os.path.exists(tf) else ""
            if txt: samples.append({"seed": a.seed, "run": run, "verdict": {0: "held", 1: "nothing to judge", 3: "violation"}.get(o["rc"], o["rc"]), "trace": txt[:1200].split("\n")})
            if len(samples) >= 2: break
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": viol,
          "coverage": {"evaluations": done, "distinct_nontrivial": len(hs),
            "rule": RULES[pid] + " Non-trivial: the run reached its verdict (runs with nothing to judge are not counted). Distinct: 64-bit hash over every library call's arguments, results, output bytes and every scheduling decision of the run.",
            "samples": samples, "runs_without_verdict": add(res, "skipped"), "runs_per_hour": int(done / sw * 3600), "seeds": "every run has its own PRNG seeded from (VERIF_SEED, run number), so runs per hour are seeds per hour",
            "simulated_time": {"measure": "logical: library calls and basic blocks executed (the library has no clock)", "library_calls": add(res, "calls"), "basic_blocks": add(res, "steps")},
            "stream_bytes_consumed": add(res, "bytes_in"), "stream_bytes_produced": add(res, "bytes_out"), "faults_injected": {k: v for k, v in faults.items() if v},
            "preemptions": add(res, "preempts"), "descriptor_migrations": add(res, "migrations"),
            "rare_conditions_reached": {k: v for k, v in probes.items() if v}, "library_edges_reached": bin(cov).count("1"),
            "distinct_measure": "distinct run hashes above; edges are distinct basic blocks of the library reached",
            "real_components": REAL, "stubbed_components": STUBS[pid] if pid in STUBS else STUBS["*"]},
          "assumptions": ["one seed and run number determine the run exactly (checked by tools/selfcheck.py)", "the search samples; a violation outside the sampled runs is not excluded"]}
    if not a.no_evidence:
        os.makedirs(VERIF + "/evidence", exist_ok=True); json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d runs (%d distinct non-trivial, %d without verdict), %d calls, %d edges, %.1f s" % (pid, a.tier, done, len(hs), add(res, "skipped"), add(res, "calls"), ev["coverage"]["library_edges_reached"], time.time() - t0))
    return rc

def violation(a, pid, d, exe, scratch, r, asan):
    tp = scratch + "/tape"; open(tp, "w").write(" ".join(map(str, r["tape"])))
    run = r["run"]; full = r["tape"]; cls = r["cls"]
    if r["rc"] == 67:                        # not even the basic lookups work
        tape = []; conf = None; trace = r["msg"]
        return write_replay(a, pid, run, cls, r["msg"], [], len(full), "", "0" * 16, 0)
    sh = sim(exe, d, "shrink", pid, a.seed, tp, 45 if a.tier == "quick" else 120, timeout=600)
    if not sh.get("ok"):
        print("ERROR: the failing run %d (class %s: %s) does not replay; its tape has %d choices" % (run, cls, r["msg"][:400], len(full))); return 3
    tape = sh["tape"]; open(tp, "w").write(" ".join(map(str, tape)))
    o1 = sim(exe, d, "one", pid, a.seed, "tape", tp, scratch + "/tr1", timeout=200); o2 = sim(exe, d, "one", pid, a.seed, "tape", tp, scratch + "/tr2", timeout=200)
    trace = open(scratch + "/tr1", errors="replace").read(); err = open(scratch + "/tr1.err", errors="replace").read()
    if o1["rc"] not in (3, 66) or o1["cls"] != sh["cls"] or o1["hash"] != o2["hash"] or o1["cls"] != o2["cls"]:
        print("ERROR: the minimised tape does not reproduce exactly (%s/%s, %s/%s)" % (o1["cls"], o2["cls"], o1["hash"], o2["hash"])); return 3
    return write_replay(a, pid, run, o1["cls"], o1["msg"], tape, len(full), trace + ("\n" + err if o1["rc"] == 66 else ""), o1["hash"], sh["tried"])

def write_replay(a, pid, run, cls, msg, tape, orig, trace, h, tried):
    os.makedirs(VERIF + "/replays", exist_ok=True)
    f = VERIF + "/replays/%s-%s.json" % (pid, hashlib.sha256((cls + str(tape) + str(run)).encode()).hexdigest()[:12])
    json.dump({"property": pid, "seed": a.seed, "run": run, "class": cls, "message": msg, "choices_original": orig, "choices_minimised": len(tape), "candidates_tried": tried, "tape": tape, "hash": h, "trace": trace.split("\n")[:400]}, open(f, "w"), indent=1)
    print("seed=%d run=%d class=%s (minimised from %d to %d choices, replayed twice with identical history)" % (a.seed, run, cls, orig, len(tape)))
    print("  " + msg[:3000]); print("--- minimised trace"); print(trace[:3500])
    print("replay with: python3 check.py --property %s --replay %s" % (pid, f))
    print("VIOLATION property=%s replay=%s" % (pid, f)); return 1

def replay(a, pid, d, exe, scratch):
    j = json.load(open(a.replay)); tp = scratch + "/tape"; open(tp, "w").write(" ".join(map(str, j["tape"])))
    o = sim(exe, d, "one", pid, j["seed"], "tape", tp, scratch + "/tr", timeout=200); print(open(scratch + "/tr", errors="replace").read())
    if o["rc"] in (3, 66):
        print("%s: %s" % (o["cls"], o["msg"])); print("history hash %s (%s)" % (o["hash"], "identical" if o["hash"] == j["hash"] else "recorded " + j["hash"]))
        print("VIOLATION property=%s replay=%s" % (pid, a.replay)); return 1
    print("the recorded run holds on this tree"); return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except B.BuildError as e: print("ERROR: build failed\n%s" % e); sys.exit(2)
    except Exception as e: import traceback; traceback.print_exc(); sys.exit(2)
