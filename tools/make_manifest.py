#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rule registry and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from s2sa import rules
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C90": "A bound on accumulated floating-point round-off of s2fft's recursions and FFTs at every band-limit is a runtime quantity; no sound static argument in reach bounds it (C10 decides the exact-arithmetic identity, C14 the precision of every buffer).",
 "C91": "Time and memory are decided inside s2fft, XLA and ducc0 at run time; the source of s2wav does not determine them.",
 "C92": "Numerical correctness of gradients is a property of the JAX/Torch autodiff engines and of s2fft's custom VJPs, outside this source; C13 decides the part visible here (no path from input to output leaves the differentiable operations).",
 "C93": "Equality across devices depends on the XLA and CUDA code generators, which are not in this source.",
}
checks = []
for p in props:
    r = rules.RULES.get(p["id"])
    if r is None:
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=r.technique, level="other", level_note=r.note))
na = [dict(property=p["id"], reason=NA.get(p["id"], "Not decided yet: the rule is under construction.")) for p in props if p["id"] not in rules.RULES]
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.dont_write_bytecode=True; import s2sa.rules\"", checks=checks, not_applicable=na,
         notes="All checks parse /repo's current source with the standard library's ast module and never import or run s2wav. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
