#!/usr/bin/env python3
"""Writes limits.inc: the most each component was ever seen to cost on the current tree.
usage: calibrate.py SIMRUN SECONDS [fresh] [seed...]"""
import os, re, subprocess, sys, tempfile
exe, secs, seeds = sys.argv[1], float(sys.argv[2]), sys.argv[3:] or ["101", "102"]
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, SIM_CALIBRATE="1")
mx = {}
names = ("cmp", "mov", "iter", "heap", "stack")
if "fresh" in seeds: seeds.remove("fresh")
else:
    # never below what was seen before
    for line in open(os.path.join(here, "limits.inc")):
        m = re.match(r'\{"(.*)", (.*)\},', line)
        for kind, v in zip(names, m[2].split(", ")): mx[m[1], kind] = float(v)
with tempfile.TemporaryDirectory() as t:
    for prop in os.environ.get("CAL", "").split() or ("C16", "C20", "C24", "C25"):
        for seed in seeds:
            ps = [subprocess.Popen([exe, "explore", f"prop={prop}", f"seed={seed}", f"start={w}", "stride=8", "count=1000000000", f"budget={secs}", "maxcand=1000000", f"out={t}/{prop}{seed}{w}"], env=env) for w in range(8)]
            for p in ps: p.wait()
    for f in os.listdir(t):
        if f.endswith(".max"):
            for line in open(os.path.join(t, f)):
                k, v = line.rstrip("\n").split("\t")
                kind, key = k.split(" ", 1)
                mx[key, kind] = max(mx.get((key, kind), 0), round(float(v) + .5))
with open(os.path.join(here, "limits.inc"), "w") as o:
    for key in sorted({k for k, _ in mx}):
        o.write('{"%s", %s},\n' % (key, ", ".join("%.0f" % (mx.get((key, m), 0)) for m in names)))
