#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {"C06": "deterministic simulation: seeded thread scheduler preempting inside library calls, solo transcripts as oracle",
 "C07": "deterministic simulation: seeded allocation-failure injection with replayable fault plans",
 "C19": "deterministic simulation: simulated locale subsystem and thread scheduler"}
ORACLE = {
 "C01": "the same input in one call", "C02": "the same input with ample room, and the consumed prefix alone", "C03": "exact poisoned buffer windows and call accounting",
 "C04": "a newly opened descriptor", "C05": "one ample flush; the stream read back; the same stream continued", "C08": "streaming the same bytes", "C09": "a newly opened descriptor; the stream without the query",
 "C10": "a strict decoder and encoder with explicit skips", "C11": "the prefix alone; the undisturbed resumption; the discarding decoder", "C12": "the direct conversion",
 "C13": "the text that was sent", "C14": "room left at 'full', basic blocks per byte", "C15": "an executable reference model of byte-order handling", "C16": "the complete characters before the cut",
 "C17": "a descriptor opened by index; pinned names and codepages", "C21": "a decoder fed the same bytes and an encoder given only what the target has", "C23": "the text first read", "C24": "the text that was taken in", "C22": "an independent model of the Unicode forms",
 "C18": "decoders written from the published specifications with pinned tables"}
checks = []
for i in [*range(1, 20), 21, 22, 23, 24]:
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "python3 check.py --property %s --tier quick" % p, "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
      "technique": TECH.get(p, "deterministic simulation with seeded fault injection (short reads, back-pressure, truncation, corruption, resets); oracle: " + ORACLE.get(p, "")),
      "level": "exploration",
      "level_note": "Seeded sampling of configurations, workloads, schedules and faults against the real library code (compiled from /repo with ASan and block coverage); every violation is minimised and replayed exactly before it is reported. Trusts the compiler, the oracle in sim/, and for names and repertoires the pinned model/; a clean run is evidence, not proof."})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks,
 "not_applicable": [{"property": "C20", "reason": "A pure function of one character: no schedule, fault, state or interleaving takes part, so simulation has nothing to decide; that would be table comparison, for which no published tables are available offline besides the ones in the repository's own tests."}],
 "notes": "No hooks were needed in /repo: seams are made by renaming undefined symbols of the compiled objects (objcopy) and by compiler instrumentation. /repo carries fix: commits only; see known-findings.txt and DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
