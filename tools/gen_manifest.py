#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it after editing; the output is committed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines() if " hook: " in l]
# technique, level note
T = {
 "B": "runtime monitor: reference bencode codec and grammar as oracle over generated, mutated and fault-injected executions",
 "H": "runtime monitor: reference hex codec as oracle",
 "S": "runtime monitor: independent 160-bit / SHA-1 arithmetic as oracle",
 "F": "runtime monitor: bit-set shadow of the filter as oracle over operation histories",
 "R": "runtime monitor: range, freshness and sequential uniformity tests over the draws",
 "D": "runtime monitor: reference encoder/decoder as oracle, fault-injecting readers and writers",
 "P": "runtime monitor: shadow model of the peer store, checked online after every operation of random histories",
 "I": "runtime monitor: shadow model of the item tables, checked online after every operation of random histories",
 "V": "runtime monitor: panic, crash and error monitor over hostile operation histories",
 "U": "runtime monitor: reference magnet parser as oracle, CPU and allocation watchdogs",
 "T": "runtime monitor: reference torrent reader and path containment check as oracle",
 "X": "runtime monitor: each object against its own model and each call against its own earlier results, while others are used in between and by other threads",
 "L": "runtime monitor: reference string functions as oracle",
}
special = {
 "B09": "runtime monitor: reference reader that finds the first fault of a document, as oracle over generated faulty documents",
 "B10": "runtime monitor: reference order over model values as oracle",
 "M01": "AddressSanitizer, ThreadSanitizer (all workloads by several threads at once), debug checks of unsafe preconditions and the Miri interpreter over all workloads",
 "B06": "runtime monitor: crash, CPU-time and heap (counting allocator) watchdogs over hostile inputs",
 "B08": "runtime monitor: fault-injecting writers failing at every byte offset, prefix oracle",
 "P03": "runtime monitor: sequential statistical test of inclusion counts over repeated lookups",
 "I04": "runtime monitor: counters read through a hook against the shadow model's contents",
}
note = ("Holds on the executions of the run: generated inputs and histories (both builds, with and without overflow checks and debug assertions), seeded by VERIF_SEED "
        "and by the literals of the current sources, judged by an oracle written independently of the code. Not exhaustive. Trusts the oracle, rustc and std.")
notes = {
 "M01": "Holds on the executions of the run. Miri runs few cases, the sanitizers many. Races are those of state that calls share behind the API. Trusts the tools; stacked borrows is the aliasing model.",
 "P03": note + " Statistical: a bias below about a tenth of an inclusion probability can go unnoticed; false alarms below 1e-9 per run.",
 "R01": note + " Statistical for uniformity: false alarms below 1e-9 per run. Known finding: create_keypair is a stub.",
 "B06": note + " Known findings: recursion per level when dropping, cloning, comparing or converting values nested hundreds of thousands deep.",
}
m = dict(version=1, setup_cmd="python3 check.py --build",
         hooks=dict(guard="cfg(vp_hooks)", enable="RUSTFLAGS=\"--cfg vp_hooks\" (check.py sets it for every build)", source_commits=hooks),
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=special.get(p["id"], T.get(p["id"][0])), level="exploration",
                      level_note=notes.get(p["id"], note)) for p in props],
         not_applicable=[],
         notes="All checks: check.py builds harness/ against /repo, runs the workers, and judges. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
