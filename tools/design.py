#!/usr/bin/env python3
"""design.py: DESIGN.md from tools/DESIGN.tpl.md, the evidence of the last runs, known_findings.json and tools/seeds_result.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from propconf import PROPS
t = open(V + "/tools/DESIGN.tpl.md").read()
rows = []
for i in sorted(PROPS):
    e = json.load(open(f"{V}/evidence/{i}.json")); c = e["coverage"]
    rows.append(f"| {i} | {len(c['functions_under_contract'])} | {c['discharged']} | {c['solver_ms']/1000:.1f} s | {e['wall_s']:.0f} s | {'; '.join(PROPS[i].get('standins', []))} |")
k = json.load(open(V + "/known_findings.json"))
sr = json.load(open(V + "/tools/seeds_result.json")) if os.path.exists(V + "/tools/seeds_result.json") else {}
seeds = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {sr.get(s, '?')} |")
t = (t.replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds))
      .replace("@FIXED@", "\n".join("* " + x for x in k["fixed"]))
      .replace("@FINDINGS@", "\n".join(f"* {x['property']} `{x['id']}`: {x['what']}" for x in k["findings"])))
open(V + "/DESIGN.md", "w").write(t)
