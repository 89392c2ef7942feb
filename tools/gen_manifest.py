#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has harnesses."""
import glob, json, re
have = set()
for f in glob.glob('/verif/harness/h*/*.go'):
    for m in re.finditer(r'^//verif:props (.*)$', open(f).read(), re.M):
        have.update(m.group(1).split())
TRUST = ("Trusted: the go/ssa interpreter in /verif/engine (validated on every run by running explored paths natively), z3, "
         "the stand-ins in /verif/harness/models. Nothing is claimed outside the stated bounds.")
DATA = ("Symbolic execution of the real functions (go/ssa of /repo's current tree): every path within the bounds is explored, inputs are "
        "bit-vector variables, each assertion and each panic condition is decided by z3. Bounds per harness are in the evidence. ")
SCHED = ("Symbolic execution of the real functions with goroutines: inputs, fault points and schedule decisions are solver variables; the "
         "search covers every Mazurkiewicz class of schedules within the stated bounds (dynamic partial-order reduction over the interpreter, "
         "validated against every interleaving of random programs), z3 decides branches, assertions and panics on each; deadlocks and leftovers are assertions. ")
NOTES = {}
NA = {}
exec(open('/verif/tools/manifest_notes.py').read())
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    if p in have and p not in NA:
        kind, extra = NOTES.get(p, ('data', ''))
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the Go SSA with z3" + (", schedules as symbolic variables" if kind == 'sched' else ""),
            "level": "model_checking", "level_note": (SCHED if kind == 'sched' else DATA) + (extra + " " if extra else "") + TRUST})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed: harnesses use gevulot's exported API and live in /verif/harness. See DESIGN.md."},
    open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
