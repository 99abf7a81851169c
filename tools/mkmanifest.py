import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
W={**{f"C{i:02}":"A" for i in range(1,22)},"C13":"B","C14":"B","C15":"B","C18":"C"}
notes={
"A":"Seeded search over simulated executions of the real agent (accept loop, connections, state machine, codec) with simulated peers, TCP, clock, task scheduler and injected faults; every run is judged by an independent reference state machine and codec. Part of the runs serve the connections from several simulated OS threads at once. No proof of absence: it covers the runs it makes. Trusted: the reference model in sim/src/{spop,model}.rs, tokio's timers and channels, and that tasks interleave at await points.",
"B":"Seeded search over interleavings of real threads that the simulator runs one at a time, with scheduling points at every channel, table, lock and atomic-wakeup operation; blocking is simulated, so a lost wake-up is an exactly repeatable deadlock. Not exhaustive. Trusted: sequentially consistent memory, tokio's channel and dashmap's shard internals at operation granularity.",
"C":"Seeded search over frame sequences, segmentations, short writes, delays, cuts and corruptions of a simulated stream between the real writer and the real reader, against an independent reference codec. Not exhaustive. Trusted: the reference codec in sim/src/spop.rs.",
}
extra={"C06":" Two genuine defects that cannot be repaired without editing existing tests are listed in known-findings.txt; their inputs are kept out of the random workload and probed separately.",
"C07":" Factories that never finish are kept out of the workload: shutdown then waits for them, which the property does not exclude.",
"C20":" The function decoded with is pure; what the simulation adds is the way its input takes to it.",
"C21":" Single allocations are watched (more than 48 MiB at once), not their sum.",
"C19":" Factories that never finish are kept out of the workload."}
checks=[]
for p in props:
    i=p["id"]
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)",level="exploration",level_note=notes[W[i]]+extra.get(i,"")))
m=dict(version=1,setup_cmd="./check.sh --build",checks=checks,
 not_applicable=[],
 notes="No hooks in /repo: the simulator's seams are the crates the code is written against (tokio, dashmap and libc symbols), replaced in the harness workspace with [patch.crates-io]. ./check.sh --replay FILE replays a violation.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
