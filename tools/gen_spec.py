#!/usr/bin/env python3
# Source of spec.json and MANIFEST.json: which harnesses decide a property,
# their bounds, and what stays outside. Run after editing.
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code's Go SSA (regenerated from /repo on every run) with z3 deciding every branch and assertion"
TECHC = TECH + "; thread schedules as bounded symbolic choices"
COMMON = [
    "The transport, HTTP request and response writer are the scripted stand-ins of harness/fake; bytes the library hands to net.Conn.Write count as sent.",
    "Standard library packages sync, time, context, bufio, crypto/sha1, encoding/base64 and encoding/json behave as the models in engine/intrinsics.go and harness/models say; explored paths are re-run natively against the real ones.",
    "Memory is sequentially consistent (justified by C32's race check).",
    "z3's verdicts and the engine's translation of go/ssa are trusted; sampled paths of every harness are re-executed against the natively compiled code on each run.",
]
OUT = ["Anything beyond the listed sizes, step counts, goroutine counts and numbers of schedule deviations."]
SCHED = "Context switches happen at synchronisation operations, transport calls, marked shared accesses and library accesses found to race; a deviation from the default order resumes another goroutine, fires a near timer, or leaves the running one off the processor until all others are blocked. Schedules with more deviations than stated are outside."
props = []
def P(id, *hs, conc=False, assume=(), outside=()):
    props.append(dict(id=id, conc=conc, harnesses=[dict(h) for h in hs], assumptions=COMMON + ([SCHED] if conc else []) + list(assume), outside=OUT + list(outside)))
def H(fn, bounds, q=60, t=200, only=""):
    d = dict(fn=fn, bounds=bounds, quick_s=q, thorough_s=t)
    if only: d["only"] = only
    return d

exec(open(os.path.join(ROOT, "tools", "spec_body.py")).read())

NA = {}
exec(open(os.path.join(ROOT, "tools", "na.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "na.py")) else None
claimed = {p["id"] for p in props}
all_ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
with open(os.path.join(ROOT, "spec.json"), "w") as f:
    json.dump([{k: v for k, v in p.items() if k != "conc"} for p in props], f, indent=1); f.write("\n")
checks = []
for p in props:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh check {p['id']} quick",
        "thorough_cmd": f"./check.sh check {p['id']} thorough",
        "technique": TECHC if p["conc"] else TECH,
        "level": "model_checking",
        "level_note": "Bounded: every input, configuration" + (", schedule" if p["conc"] else "") + " and fault choice within the bounds of harnesses " + ", ".join(h["fn"] for h in p["harnesses"]) + " is decided by the solver (bounds in spec.json and in the evidence); nothing is claimed beyond them. Trusts the SSA translation, the library models and z3; counterexamples and sampled paths are re-run on the native build.",
    })
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in all_ids if i not in claimed]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the engine interprets the compiler's SSA of /repo's working tree. All repairs are 'fix:' commits, listed in known_findings.txt."}, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
