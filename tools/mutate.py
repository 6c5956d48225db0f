#!/usr/bin/env python3
"""Mutation campaign in a scratch copy: mutate.py REPOCOPY N SEED [file regex]. Prints each mutant and the properties that notice it.
Never run on /repo. Survivors are meant to be read by hand: equivalent, out of scope, or a gap in the checks."""
import os, re, sys, random, subprocess, json, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = sys.argv[1]; assert os.path.realpath(R) != "/repo"
os.environ["SIM_REPO"] = R; sys.path.insert(0, V)
import build as B, check
from catalogue import P
N = int(sys.argv[2]); rnd = random.Random(int(sys.argv[3])); FR = re.compile(sys.argv[4] if len(sys.argv) > 4 else r".")
SECS = float(os.environ.get("MUT_SECS", "6"))
files = [os.path.join(d, f) for d, _, fs in os.walk(R + "/lib") for f in fs if re.search(r"\.(h|c|cpp)$", f) and "generated" not in d and "localecharset" not in d and f not in ("all_encodings.h", "codepage_to_ei.h", "encoding_indexes.h", "converters.h", "encoding.h")]
OPS = [ (r"\bn < (\d+)", lambda m: "n < %d" % (int(m[1]) - 1)), (r"\bn >= (\d+)", lambda m: "n >= %d" % (int(m[1]) - 1)), (r"\bn < (\d+)", lambda m: "n < %d" % (int(m[1]) + 1)),
  (r"(?<=[^=<>!])>= ", lambda m: "> "), (r" <= ", lambda m: " < "), (r" < ", lambda m: " <= "), (r" > ", lambda m: " >= "), (r" == ", lambda m: " != "), (r" != ", lambda m: " == "),
  (r"^\s+conv->[io]state = .*;$", lambda m: ";"), (r"^\s+cd->[io]state = .*;$", lambda m: ";"), (r"^\s+state\d? = .*;$", lambda m: ";"), (r"^\s+(COMBINE_STATE|SPLIT_STATE);$", lambda m: ";"), (r"^\s+(count|s|n|r|result|pos|prevstate|lasttwo|inptr|inleft|outptr|outleft) (\+|-)= .*;$", lambda m: ";"), (r"^\s+conv->ibyteorder = .*;$", lambda m: ";"), (r"^\s+\w+\+\+;$", lambda m: ";"), (r"^\s+\*?\w+ = \w+;$", lambda m: ";"),
  (r"RET_TOOSMALL", lambda m: "RET_ILUNI"), (r"RET_ILUNI;", lambda m: "RET_TOOSMALL;"), (r"RET_TOOFEW\((\w+)\)", lambda m: "RET_ILSEQ"), (r"RET_TOOFEW\(([a-z]\w*)\)", lambda m: "RET_TOOFEW(0)"), (r"return RET_ILSEQ;", lambda m: "return RET_TOOFEW(0);"), (r"RET_SHIFT_ILSEQ\(\w+\)", lambda m: "RET_ILSEQ"),
  (r"\+= (\d+)", lambda m: "+= %d" % (int(m[1]) + 1)), (r"\bif \((.*)\)$", lambda m: "if (0 && (%s))" % m[1]), (r"\bif \((.*)\)$", lambda m: "if (1 || (%s))" % m[1]), (r" && ", lambda m: " || "), (r" \|\| ", lambda m: " && "), (r"errno = (E\w+)", lambda m: "errno = %s" % {"E2BIG": "EINVAL", "EINVAL": "EILSEQ", "EILSEQ": "EINVAL"}.get(m[1], "EIO")),
  (r"0x([0-9a-f]{2,5})\b", lambda m: "0x%x" % (int(m[1], 16) + 1)), (r"\breturn (\d);", lambda m: "return %d;" % (int(m[1]) + 1)), (r"^\s+\w[\w\[\]\+\- ]* = .*;$", lambda m: ";"), (r"^\s+(break|continue|goto \w+);$", lambda m: ";") ]
def candidates(path):
    t = open(path).read().split("\n"); r = []; infn = False; depth = 0; tab = False
    for i, l in enumerate(t):
        if re.match(r"#if 0", l): infn = True
        elif l.startswith("#endif"): infn = False
        if infn or re.match(r"\s*(/?\*|//|#)", l): continue
        if re.match(r"(static )?const .*\[.*\] = *\{?|.*\] = *\{?$", l) or re.match(r"\s+[\{\[]? ?0x[0-9a-f]+,", l): tab = True
        if tab:
            if "}" in l and ";" in l: tab = False
            continue
        if not l.startswith((" ", "\t")): continue
        for k, (p, f) in enumerate(OPS):
            for m in re.finditer(p, l):
                new = l[:m.start()] + f(m) + l[m.end():]
                if new != l: r.append((i, k, new))
    return t, r
def main():
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    per = [(f, c) for f in files if FR.search(f) for c in [candidates(f)] if c[1]]
    done = 0; seen = set()
    while done < N:
        f, (t, cs) = rnd.choice(per); k = rnd.choice(sorted({c[1] for c in cs})); i, k, new = rnd.choice([c for c in cs if c[1] == k])
        if (f, i, new) in seen: continue
        seen.add((f, i, new)); u = t[:]; u[i] = new; open(f, "w").write("\n".join(u)); t0 = time.time()
        try:
            d, base = B.build("base"); thr = d + "/sim-thr"
        except B.BuildError: open(f, "w").write("\n".join(t)); continue
        done += 1; os.environ["SIM_KNOWN"] = "jp2-c1"; tmp = tempfile.mkdtemp(prefix="mut-"); killers = []; props = [p for p in P if p not in ("C06", "C19")]
        for a in range(0, len(props), 8):
            ps = [(p, subprocess.Popen([base, d, "search", p, "5", "0", "100000000", "1", str(SECS), "%s/h%s" % (tmp, p), "%s/e%s" % (tmp, p)], stdout=open("%s/o%s" % (tmp, p), "w"), stderr=subprocess.DEVNULL)) for p in props[a:a + 8]]
            for p, q in ps:
                try: q.wait(SECS + 60)
                except subprocess.TimeoutExpired: q.kill(); q.wait()
                try: o = json.load(open("%s/o%s" % (tmp, p)))
                except ValueError: killers.append(p + ":?"); continue
                if o["rc"]: killers.append("%s:%s@%d" % (p, o["cls"][:24], o["run"]))
        shutil.rmtree(tmp); open(f, "w").write("\n".join(t)); shutil.rmtree(d, ignore_errors=True)
        print(("KILLED " if killers else "SURVIVED ") + "%s:%d op%d\n    - %s\n    + %s\n    %s (%.0f s)" % (f[len(R) + 1:], i + 1, k, t[i].strip(), new.strip(), " ".join(killers), time.time() - t0), flush=True)
main()
