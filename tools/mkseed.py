#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and tries each: mkseed.py [--check] [--only id,...]
Works on /repo itself (apply, build, test, demo, check, undo); never run while something else reads /repo."""
import os, sys, subprocess, json, shutil, argparse, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def restore(): sh("git -C /repo checkout -- ."); 
DEMO = """#!/bin/bash
# run with cwd = the repository after its build; exit 0 if the property holds here
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s
g++ -std=c++20 -O1 -g %s -I"$here" -I"$PWD/_build/include" "$here/demo.cpp" "$PWD/_build/libcppp-reiconv.a" -o "$t/demo" -lpthread || exit 2
%s timeout 120 "$t/demo"
"""
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--only"); ap.add_argument("--check", action="store_true"); ap.add_argument("--all-checks", action="store_true"); a = ap.parse_args()
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("passed") or base.get("stable") or base.get("tests") or base
    for s in SEEDS:
        if a.only and s["id"] not in a.only.split(","): continue
        d = V + "/seeded/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            for f, old, new, *nth in s["edits"]:
                p = R + "/" + f; t = open(p).read(); n = t.count(old)
                if not n or (n > 1 and not nth): raise Exception("%s: %d matches of %r in %s" % (s["id"], n, old, f))
                if nth and nth[0] != "all":
                    at = -1
                    for _ in range(nth[0] + 1): at = t.index(old, at + 1)
                    t = t[:at] + new + t[at + len(old):]
                else: t = t.replace(old, new)
                open(p, "w").write(t)
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            open(d + "/demo.sh", "w").write(DEMO % (s.get("pre", ":"), s.get("flags", ""), s.get("env", ""))); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write('#include "demo.hpp"\n' + s["demo"].lstrip("\n")); shutil.copy(V + "/tools/seedlib/demo.hpp", d)
            for fn, tx in s.get("files", {}).items(): os.makedirs(os.path.dirname(d + "/" + fn), exist_ok=True); open(d + "/" + fn, "w").write(tx)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh("bash /opt/vp/test.sh /tmp/seed-t.json", cwd=R); res = json.load(open("/tmp/seed-t.json"))
            ok_t = len(res["passed"]); dp = sh("bash %s/demo.sh" % d, cwd=R)
            line = "%s %s: tests passed=%d failed=%s demo=%d (%s)" % (s["id"], s["property"], ok_t, res["failed"][:3], dp.returncode, dp.stdout.strip()[:150].replace("\n", " | "))
            if a.check:
                props = [s["property"]] + s.get("also", [])
                if a.all_checks: props = ["C%02d" % i for i in range(1, 25) if i != 20]
                for p in props:
                    t0 = time.time(); c = sh("python3 check.py --property %s --no-evidence" % p, cwd=V)
                    m = [l for l in c.stdout.split("\n") if "class=" in l or l.startswith("ERROR")]
                    line += "\n    %s rc=%d %.0fs %s" % (p, c.returncode, time.time() - t0, (m or c.stdout.strip().split("\n")[-1:])[0][:120])
            print(line, flush=True)
        except Exception as e: print("ERR", e, flush=True)
        finally: restore()
        sh("bash /opt/vp/build.sh", cwd=R); dp = sh("bash %s/demo.sh" % d, cwd=R)
        if dp.returncode: print("   !!! demo fails on the clean tree: %s" % dp.stdout[:400], flush=True)
main()
