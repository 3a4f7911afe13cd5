#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
R={
"N04":"Constant per component: a pure function of the queried identifier, independent of state, time and peers.",
"N05":"Pure arithmetic on operands; where contracts depend on it (vault pricing, royalties, vesting, checkpoints) the results are judged inside C06, C11, C21 and C25.",
"N06":"Pure hashing of bytes: nothing to schedule or fault; the domain separator and permit digest are judged inside C03.",
}
NOTE={
"C27":"A violation is attributed here when it disappears once traps, gas exhaustion and peer misbehaviour are taken out of the schedule.",
"C28":"Only violations seen through read-only calls (top level, or nested in callbacks) are attributed here.",
"C29":"Two oracles: an observer that folds only the logs and is compared with the queries, and the exact events the reference model prescribes.",
"C30":"Liveness as bounded progress: from states along each run (and its end) a copy of the world is driven, without faults, until everybody has left; judged on the real contract alone.",
"C31":"Real: the verifier, hashers, bitmap, ERC-20, ownable. The distributor combining them is the simulator's own composition, as in /repo/examples.",
"C32":"Real: Poseidon2, its instances, the prime fields, ERC-20. The note pool combining them, and small instances of widths no shipped instance has, are the simulator's own.",
"C33":"Real: all arithmetic. The register contract, additional fields and small curves (parameters only) are the simulator's own.",
"C14":"Token id 0 is a recorded finding (known_findings.txt), tolerated in exactly that form.",
}
checks=[];na=[]
for l in open('properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i in R: na.append({"property":i,"reason":R[i]}); continue
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}",
     "technique":"deterministic simulation with fault injection: seeded search over transaction histories, schedules, re-entry and fault plans on a simulated Stylus chain, judged against an executable reference model",
     "level":"exploration",
     "level_note":("Seeded exploration: no violation in any simulated run, not a proof. Runs the real contract code and stylus-sdk against a simulated Stylus host; trusts the host model (host.rs), the reference model (m/*.rs) and that native code behaves as the wasm build. "+NOTE.get(i,"")).strip()})
json.dump({"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"cfg(vsim)","enable":"RUSTFLAGS='--cfg vsim' cargo build (build.sh)","source_commits":["b8acf63e845d06a7aa6954f2e3003fb079a8ba7a","b92235a334339c9745e939ef5119f4e36a7f34d9"]},"checks":checks,"not_applicable":na,
 "notes":"The seam is the host-call interface of stylus-sdk (vm_hooks symbols), implemented by the simulator; one hook opens a private function, the other lets the limb multiplication of the wasm build run in the simulator."},open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
