"""writes MANIFEST.json from the list of checks (sim/props/*.py) and tools/na.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "sim/props")) if f[0] == "c"}
na = dict(json.load(open(os.path.join(V, "tools/na.json"))))
REAL = "The real papyri command, built from /repo, runs unmodified; the operating system below it (files, streams, directory order, clock, randomness, scheduling of processes) is simulated."
API = "The real papyri library runs unmodified in a small driver program; writers, threads' interleaving and the operating system below it are simulated."
NET = "The real papyri command with its HTTP client runs unmodified; sockets, servers, polling and timers are simulated in virtual time."
note = {"C10": API, "C12": API, "C11": NET}
checks = []
for p in props:
    i = p["id"]
    if i not in have: continue
    checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
                   "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences", "level": "exploration",
                   "level_note": note.get(i, REAL) + " Sampled, not exhaustive: a clean batch is evidence over the explored runs. Assumes the simulated system calls behave like Linux's."})
json.dump({"version": 1, "setup_cmd": "bin/build", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in have],
           "notes": "No hooks in /repo: every seam is below the C library (LD_PRELOAD). known_findings.txt lists findings and repaired defects. bin/replay FILE replays a violation."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
