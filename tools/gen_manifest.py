#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run from /verif)."""
import json
NA = {}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
NOTE = "Seeded search over schedules, delays and faults of whole simulated systems running the real crate; bounded by the runs that fit the time (quick: 35 s on all cores, thorough: 10 min with larger scenarios). Not exhaustive."
m = dict(version=1, setup_cmd="bash sim/build.sh",
  hooks=dict(guard="cfg(rexecutor_sim)", enable="RUSTFLAGS='--cfg rexecutor_sim' (set by sim/build.sh)", source_commits=["c743ee0"]),
  checks=[dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
     technique="deterministic simulation with fault injection (seeded schedule and fault search)", level="exploration", level_note=NOTE)
     for p in props if p not in NA],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if k in props])
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json","a").write("\n")
