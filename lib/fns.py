#!/usr/bin/env python3
"""Writes lib/fns.json: the functions each unit extracts from the tree its contracts were written for. A function that is
not in the list appeared later and has no contract of its own, so what is not discharged in it or in a function that
calls it says nothing about the property (bin/check falls back to the bounded search there). Run after changing units."""
import json, os, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vx = os.path.join(V, ".build/vx/release/vx")
out = {}
for f in sorted(os.listdir(os.path.join(V, "units"))):
    n = f[:-5]
    if not os.path.exists(os.path.join(V, ".build", n + ".json")):
        continue
    js = f"/tmp/fns-{n}.json"
    subprocess.run([vx, os.path.join(V, "units", f), sys.argv[1] if len(sys.argv) > 1 else "/repo", f"/tmp/fns-{n}.rs", js], check=True, cwd=V)
    out[n] = sorted({x["key"] for x in json.load(open(js))["functions"]})
    os.unlink(js); os.unlink(f"/tmp/fns-{n}.rs")
json.dump(out, open(os.path.join(V, "lib/fns.json"), "w"), indent=0)
print({k: len(v) for k, v in out.items()})
