#!/usr/bin/env python3
"""Source of MANIFEST.json (run after editing)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
NOTE = {}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "checks", i + ".py")):
        NA.setdefault(i, "no check yet: the machinery for this part is still being built")
        continue
    c = getattr(importlib.import_module(i), i)()
    checks.append(dict(property=i, quick_cmd="python3 checks/%s.py --tier quick" % i,
                       thorough_cmd="python3 checks/%s.py --tier thorough" % i,
                       technique=getattr(c, "technique", "stateful property-based testing of the real server and client library against a reference model, with shrinking"),
                       level=c.level,
                       level_note=getattr(c, "note", "Holds on every generated history: %d histories in the quick tier, %d in the thorough one, fully determined by VERIF_SEED, executed with AddressSanitizer builds of the current tree. Trusted: the reference model (lib/model.py), the driver and ASan." % (c.quick, c.thorough))))
m = dict(version=1, setup_cmd="python3 lib/vbuild.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Every check builds /repo's working tree with the project's own CMake files and AddressSanitizer into .work/ (keyed by a hash of the sources), needs no hooks in /repo, and works in scratch directories under the system's temporary directory. Replay a counterexample with: python3 checks/<id>.py --replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
