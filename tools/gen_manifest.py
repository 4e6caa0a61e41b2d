#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"N01": "Pure functions of their input (address derivation, message encoding): no schedule, clock, I/O, fault or other party for a simulation to decide; enumerating inputs is another technique. Collisions that matter would surface as wrong balances under R01/W01."}
SKIP = set()  # not ready yet
NOTE = {
 "C01": "2-4 nodes with different caches, pruning, inter-block cache, invariant checks, clocks (skewed up to days) and local load execute the same blocks; app hash, tx results and validator updates compared at each height, also for restarted, crashed, stalled and late-joining nodes.",
 "C02": "crashes before, inside (after the n-th read or write) and after execution and commit, lost unsynced writes, write errors and full disks; after restart the node must be at a committed height with the hash it committed and replay to agreement.",
 "C05": "validators run the real vote-extension, prepare and process handlers; byzantine reports and proposals up to one third of the power; prices compared with the stake-weighted median of the admitted reports.",
 "X02": "at random points the state is exported, validated, edited in up to twenty random ways out of a catalogue (sim/genfault.go), and each edited file is validated and started on a scratch node, which must refuse it.",
 "V01": "half of the transactions carry a message with one field spoilt (sim/malformed.go); the model demands a refusal and no effect.",
 "X01": "the chain is exported at random heights, restarted from the exported genesis, and both the whole observable state and the future (same steps, same model) are compared.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA or i in SKIP:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and faults of the whole application against an executable reference model",
        "level": "exploration",
        "level_note": NOTE.get(i, "Every block's transaction results and balances, and in half of the blocks the whole state as the chain's own queries report it, are compared with an independent reference model.") +
            " Assurance is that of a seeded random search, not exhaustive; it trusts the reference model in sim/, the simulated consensus and disk, and the dependencies' code.",
    })
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^abci: make the oracle client replaceable"], capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./run.sh build /tmp/vsim-setup && rm -f /tmp/vsim-setup",
 "hooks": {"guard": "verif", "enable": "go build -tags verif (app/abci/oracle_client_verif.go: the oracle client becomes a variable that the simulator sets)", "source_commits": hook},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] + [{"property": k, "reason": "check under construction"} for k in sorted(SKIP)],
 "notes": "One simulator (sim/, built into /repo's module with go build -overlay) decides all properties; see DESIGN.md. ./run.sh replay FILE repeats a reported violation. known_findings.txt lists repaired and unrepaired defects of the repository.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
