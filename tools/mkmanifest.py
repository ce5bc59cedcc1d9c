import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from propconf import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if "verification hook" in l]
m = dict(version=1, setup_cmd="cd /verif && cargo build --offline -q --manifest-path extract/Cargo.toml",
         hooks=dict(guard="butane_verif", enable='RUSTFLAGS="--cfg butane_verif"', source_commits=hooks),
         checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        m["checks"].append(dict(property=i, quick_cmd=f"cd /verif && python3 check.py {i}", thorough_cmd=f"cd /verif && python3 check.py {i} --thorough",
            technique="contract-based deductive verification with Verus of functions extracted from the source on every run; a bounded search of the real code looks for failing inputs and stands in for functions outside the verifier's reach",
            level=PROPS[i].get("level", "proof"), level_note=PROPS[i]["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
