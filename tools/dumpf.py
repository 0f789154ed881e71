#!/usr/bin/env python3
"""Print the facts of functions whose readable name matches a pattern (a debugging aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.load import load
p = load()
for f in p.match(sys.argv[1]):
    print("=====", f.key, f.file, f.line, "ret", f.ret, "params", f.params, "rec", f.record)
    for v, d in (f.vars.items() if isinstance(f.vars, dict) else enumerate(f.vars)): print("  var", v, d)
    for i, nd in enumerate(f.nodes):
        print("  ", i, {k: v for k, v in nd.items() if k not in ()})
    for b in f.blocks.values(): print("  B", b)
    print("  trys", f.trys)
