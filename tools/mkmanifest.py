"""Writes MANIFEST.json from properties.jsonl, tools/na.json and the list of claimed properties."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
    "W": "deterministic simulation with fault injection: seeded clusters of generated Rust/TypeScript code over simulated streams, storage and peers, "
         "checked against a reference model of the documented encoding",
    "T": "deterministic simulation with fault injection: the real tool in seeded project histories under a simulated file system boundary "
         "(scheduled faults, short transfers, kills, interleavings), checked against a reference model",
}
NOTE = {
    "W": "Seeded search (bounded number of worlds and runs), so exploration, not proof. Schema worlds, values, versions, stream segmentation, "
         "faults and corruption are drawn from one seed; the generated code and the tool are real. Trusts rustc, node, esbuild and the reference model in rt/src/model.rs.",
    "T": "Seeded search over histories, fault points and schedules, so exploration, not proof. The tool binary is real; its system calls go "
         "through a controllable shim. Trusts the kernel's file system, the shim, and the reference model (a clean-room run on the same schemas and an independent import resolver).",
}
EXTRA = {}
claimed = os.environ.get("CLAIMED")
na = json.load(open(os.path.join(V, "tools", "na.json")))
nas = {x["property"] for x in na}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [i for i in ids if i not in nas and (i[0] == "W" or os.path.exists(os.path.join(V, "sim", "cli.py")))]
m = dict(version=1, setup_cmd="./check --setup", checks=[
    dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
         technique=TECH[i[0]], level="exploration", level_note=NOTE[i[0]] + EXTRA.get(i, "")) for i in have],
    not_applicable=na + [dict(property=i, reason="Check under construction.") for i in ids if i not in nas and i not in have],
    notes="No hooks in /repo: the seams are the generated code's Read/Write/BufRead parameters and buffers, and the system call boundary of the "
          "tool (LD_PRELOAD shim). VERIF_SEED chooses the search; `./check --replay FILE` re-executes a replay file.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
