#!/usr/bin/env python3
"""Replays the sampled paths of an engine result natively and compares: probe.py RESULT.json"""
import json, sys, os, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, run
d = json.load(open(sys.argv[1]))
_, _, natives, _ = build.all_parallel()
work = tempfile.mkdtemp()
lines, want = [], []
for j in d["jobs"]:
    for hx, dg in j["leaves"]:
        lines.append(run.case_line(j["harness"], j["cfg"], hx)); want.append(dg)
for b in natives:
    got = run.replay_batch(b, lines, work, 300)
    bad = [(l, w, g) for l, w, g in zip(lines, want, got) if not g.startswith("ok " + w + " ")]
    print(b[-30:], len(lines), len(got), "different:", bad[:6])
