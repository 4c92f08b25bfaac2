#!/usr/bin/env python3
import json, sys, subprocess
NA = json.load(open("/verif/tools/not_applicable.json"))
TECH = {
 "C01": "differential monitoring of every parse entry point against a reference grammar over generated, enumerated and mutated texts; ASan/UBSan slice",
 "C02": "runtime oracle: reference compact text compared with Stringify on generated, swept and corpus documents",
 "C03": "runtime oracle: every query on every value compared with a reference tree",
 "C04": "runtime oracle: reference decoder on all code units, surrogate pairs, byte pairs and generated strings",
 "C05": "runtime oracle: correctly rounded conversion compared bit for bit; round trips of set values",
 "C06": "runtime oracle: reference legality of strings and numbers against all setter variants, hostile bytes behind the argument",
 "C07": "model-based monitoring of failure-heavy histories: full audit of all live values after each refused call",
 "C08": "model-based monitoring: random and enumerated edit histories audited against an ordered-tree model",
 "C09": "model-based monitoring of copy histories across allocators, edits on both sides, releases",
 "C10": "caller-buffer monitor: exact-size buffers at guard pages, read-only, scribbled and revoked; ASan",
 "C11": "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and arena red zones under all workloads; CPU watchdog",
 "C12": "allocation monitor: every system block attributed to its allocator and accounted for at release; LeakSanitizer",
 "C13": "retention monitor: returned memory snapshotted and compared again during and at the end of histories",
 "C14": "ThreadSanitizer under concurrent sessions; concurrent results compared with the same histories run alone",
 "C15": "transcript comparison of identical histories across build configurations, with model audits and sanitizers",
 "C16": "transcript comparison of identical histories across API flavours, with model audits and sanitizers",
 "C17": "model-based monitoring of the Go binding with an allocation monitor and AddressSanitizer",
 "C18": "differential monitoring of the beta header against the reference grammar and tree; ASan/UBSan and allocation monitor",
 "C20": "model-based monitoring of the beta header's edits: random and enumerated histories, setter arguments and refused calls audited against an ordered-tree model",
 "C21": "ASan/UBSan/MSan/TSan, arena red zones, allocation and retention monitors, small stack and step counting under the beta header's workloads",
 "C22": "transcript comparison of identical histories across build configurations of the beta header, with model audits, counters and sanitizers",
 "C19": "small-stack execution of huge documents, step counting (edge instrumentation) and allocation accounting",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = {x["property"] for x in NA}
note = "Held on the executions run (counts in the evidence file), not proved. Trusts the reference model in /verif/harness (ref.h, session.h), the compilers and the sanitizer runtimes."
m = {"version": 1, "setup_cmd": "python3 run.py builds",
     "hooks": {"guard": "zj_VERIF_HOOKS", "enable": "checks compile the headers with -Dzj_VERIF_HOOKS (and once more without) after -include harness/vf_rt.h, which defines zj_VERIF_ALLOC_BEGIN/END", "source_commits": ["7a7a657", "186ea30"]},
     "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i, "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": note} for i in ids if i not in na],
     "not_applicable": NA,
     "notes": "Design, bounds, exclusions and the catch matrix are in DESIGN.md; findings in known-findings.txt. `python3 run.py replay <file>` re-runs a reported violation."}
m["hooks"]["source_commits"] = [subprocess.check_output(["git", "-C", "/repo", "rev-parse", c]).decode().strip() for c in m["hooks"]["source_commits"]]
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks")
