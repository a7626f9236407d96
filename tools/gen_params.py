#!/usr/bin/env python3
"""Freezes the parameter names of the public functions (rz/params.json), so that renaming a parameter does not unhook a rule."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rz import dump, program
program.PARAMS.clear()
P = program.Program(dump.ensure()[0])
t = {}
for f in P.fns.values():
    if f.kind in ("fn", "method") and not f.derived and (f.pub or f.trait) and f.argc and len(P.by_path[f.path]) == 1:
        n = [f.local_name(i) for i in range(1, f.argc + 1)]
        if any(x not in (None, "self", "f", "args") for x in n):
            t[f.path] = n
with open(os.path.join(V, "rz", "params.json"), "w") as fh:
    fh.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in sorted(t.items())) + "\n}\n")
print(len(t))
