#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (properties with a world get a check)."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
plans=open(here+'/sim/ctl/plans.go').read()
claimed=re.findall(r'^\s*"(C\d\d)":',plans,re.M)
NA={
"C20":"As stated a pure, total function of one in-memory document and its arguments: no schedule, clock, I/O, fault or history enters. What a simulator can decide of it - the answers handlers get to requests that crossed several forms, under concurrency - is claimed as C17, its freedom from interference and crashes under C01 and C07.",
"C21":"As stated an algebraic law over inputs of a pure function; no nondeterminism or fault for a simulator to control. What sites that compare and exchange documents rely on of it is claimed as C18.",
"C22":"A static mapping from types to output with no execution nondeterminism; that both directions agree is covered by C14 and that it is deterministic by C09, but the tag table itself is a pure-function specification outside this technique.",
"C23":"As stated a conversion by third-party pure code with no schedule or fault in it; documents that travel as YAML between nodes are part of C17, freedom from interference and determinism of C01, C02 and C09.",
"C24":"As stated a pure function from text to value; requests typed by hand in lenient spelling are part of C17, amounts of money between versions of C16, robustness to damage of C07.",
"C25":"As a statement of its own a static table; nothing in it depends on scheduling, time, I/O or faults. The errors handlers get for members of requests, after any way they came, are decided as part of C17.",
}
TECH={
"C01":"deterministic simulation: seeded scheduling of concurrent readers of one document, race detector under the controlled schedule",
"C02":"deterministic simulation: seeded interleavings and call histories with failing hooks, compared with a solo run and a model",
"C03":"deterministic simulation: seeded edit histories and interleaved owners against an identity-heap reference model",
"C04":"deterministic simulation: histories of decodes with injected hook failures, snapshots of everything not targeted",
"C05":"deterministic simulation with torn-write faults at every byte of generated writes",
"C06":"deterministic simulation of a stream over a faulty packet network with crashing readers and writers",
"C07":"deterministic simulation: seeded damage on the wire, then every operation on what was accepted",
"C08":"deterministic simulation of a log with crash-torn records and noise",
"C09":"deterministic simulation: map enumeration order, clock, zone, history and schedule under a seeded controller",
"C10":"deterministic simulation: seeded reordering and duplication of query parameters in flight",
"C11":"deterministic simulation: object graphs sent through a reordering channel, graph isomorphism oracle",
"C12":"deterministic simulation with fault injection in user hooks",
"C13":"deterministic simulation: redelivery and interrupted delivery of messages to replicas",
"C14":"deterministic simulation: typed records through a faulty network and crash-recovered log",
"C19":"deterministic simulation: publishers and readers of polymorphic messages over a network that loses, tears and repeats, concurrent readers under seeded schedules; executable model of what each must hold",
"C18":"deterministic simulation: sites editing, comparing and reconciling documents over a faulty network with restarts, concurrent comparisons under seeded schedules; executable model of equality, difference and merge",
"C17":"deterministic simulation: clients, gateways and handlers exchanging requests in changing forms over a faulty network, concurrent handlers under seeded schedules; answer table as reference model",
"C16":"deterministic simulation: cluster of versions with differing field types, upgraded and rolled back, over a faulty network; conversion table as reference model",
"C15":"deterministic simulation: mixed-version cluster exchanging records under seeded enumeration and arrival orders",
}
NOTE="Seeded search: no violation in the simulated runs explored; not exhaustive. Trusts the Go compiler and runtime, the source instrumenter (adds yield points, map-order and clock seams) and the harness's reference model."
m={"version":1,
 "setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none","enable":"No hooks in /repo: checks copy /repo's working tree and instrument the copy (sim/instrument).","source_commits":[]},
 "checks":[{"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","technique":TECH[p],"level":"exploration","level_note":NOTE} for p in sorted(claimed)],
 "not_applicable":[{"property":p,"reason":r} for p,r in sorted(NA.items())]}
ids=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
for p in ids:
    if p not in claimed and p not in NA:
        m["not_applicable"].append({"property":p,"reason":"World not built yet."})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write("\n")
