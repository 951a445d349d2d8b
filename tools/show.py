#!/usr/bin/env python3
"""Pretty-prints an ITF trace / replay file."""
import json, sys
def v(x):
    if isinstance(x, dict):
        if "#bigint" in x: return int(x["#bigint"])
        if "#tup" in x: return tuple(v(y) for y in x["#tup"])
        if "#set" in x: return [v(y) for y in x["#set"]]
        if "#map" in x: return {str(v(a)): v(b) for a, b in x["#map"]}
        return {k: v(y) for k, y in x.items()}
    if isinstance(x, list): return [v(y) for y in x]
    return x
d = json.load(open(sys.argv[1]))
print(d.get("violation"))
for i, s in enumerate(d["states"]):
    s = {k.split("::")[-1]: v(x) for k, x in s.items() if not k.startswith("#")}
    print(i, s["obs"]["op"], "at", s["obs"]["at"], "by", s["obs"]["by"], s["obs"]["args"], "errs", s["obs"]["errs"], "ret", s["obs"]["ret"], "evs", s["obs"]["evs"])
    if "-s" in sys.argv or i == len(d["states"]) - 1:
        print("    ", {k: x for k, x in s.items() if k != "obs"})
