#!/usr/bin/env python3
"""Proves determinism on a sample: the same runs executed by 1, 3 and 8 workers, in fresh processes and in a different
order of neighbours, must give the same event hashes; several seeds, every property."""
import sys, os, subprocess, tempfile, array, hashlib
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
import build as B, check
N = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 25) if i != 20]
bad = 0
for pid in props:
    d, exe = B.build("thr" if pid in ("C06", "C19") else "base"); os.environ["SIM_KNOWN"] = ",".join(k for k, _ in check.known_findings(pid))
    for seed in (1, 2, 77):
        sums = set()
        for workers in (1, 3, 8, 24):
            t = tempfile.mkdtemp(prefix="self-")
            ps = [subprocess.Popen([exe, d, "search", pid, str(seed), str(w), str((N - w + workers - 1) // workers), str(workers), "600", "%s/h%d" % (t, w), "%s/e%d" % (t, w)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(workers)]
            for p in ps: p.wait()
            hs = []
            for w in range(workers):
                x = array.array("Q"); x.frombytes(open("%s/h%d" % (t, w), "rb").read()); hs += list(x)
            sums.add((len(hs), hashlib.sha256(repr(sorted(hs)).encode()).hexdigest()[:16])); subprocess.run(["rm", "-r", t])
        print(pid, "seed", seed, "runs", N, "ok" if len(sums) == 1 else "DIFFERS %s" % sums, sums); bad |= len(sums) != 1
sys.exit(bad)
