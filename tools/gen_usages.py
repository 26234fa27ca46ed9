#!/usr/bin/env python3
"""One-off: wrote data/usages.json (constant -> code) from the reviewed tables.  Not run by any check: the committed
file is the reference the checks compare the working tree with."""
import json, os, sys, types
sys.path.insert(0, "/repo")
import hrdc.usage as up, hrdc.usage.arcade
from hrdc.usage import Usage
tab = {}
for m, mod in vars(up).items():
    if isinstance(mod, types.ModuleType) and m != "usage":
        for a, v in vars(mod).items():
            if isinstance(v, Usage):
                tab["%s.%s" % (m, a)] = int(v)
with open(os.path.join(os.path.dirname(__file__), "..", "data", "usages.json"), "w") as o:
    json.dump(tab, o, indent=0, sort_keys=True)
types_ = {n: t for n, t in vars(up.usage).items() if isinstance(t, up.usage.UsageType)}
with open(os.path.join(os.path.dirname(__file__), "..", "data", "types.json"), "w") as o:
    json.dump({n: sorted(c for c in tab if not c.startswith("arcade.") and t.test(eval("up." + c))) for n, t in sorted(types_.items())}, o, indent=0)
