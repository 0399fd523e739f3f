# Writes MANIFEST.json.
import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set()
for f in glob.glob('/verif/sim/props/c*.go'):
    have|=set(re.findall(r'ID:\s*"(C\d+)"',open(f).read()))
T="deterministic simulation with fault injection: "
note={
"C01":(T+"seeded delivery schedules vs one-piece delivery","Every delivery of the same bytes is compared with delivery in one piece; samples inputs and schedules, all library code and the standard library's JSON and buffering run for real."),
"C02":(T+"faults placed on counted write/create/close calls","Each run counts the calls of a fault-free run and then fails drawn ones; success after a delivered fault, or missing bytes after success, is a violation. Sampled, not exhaustive."),
"C03":(T+"cuts and failures of sources at drawn positions","Oracle: what must have arrived is computed independently from the bytes; sampled positions, errors and deliveries."),
"C04":(T+"histories of saves, opens, failures and crashes vs a model of the disk","A map from file names to saved content is the reference model; the simulated disk is trusted, a process crash keeps what was handed to it."),
"C05":(T+"output exchanged with an independent reader","An independent GLB/JSON reader and a reflection-based tree of the document judge the bytes; encoding/json is real."),
"C06":(T+"hostile names against a recording file system","Every name and path is recorded by the simulated file system; hostile URIs are generated, not enumerated."),
"C07":(T+"handle table of the simulated file system under injected faults","Handles are counted by the simulated disk after every operation, with faults on any call."),
"C08":(T+"damaged assets and malformed documents under step, time and memory bounds","Steps are counted by instrumentation of every statement, allocation by the runtime; damage is sampled."),
"C09":(T+"write histories with failing sources and relays vs a model","A list of written values is the reference model, checked through the reader and an independent accessor decoder."),
"C10":(T+"read histories with simulated pools and dirty buffers vs an independent decoder","Pool contents are chosen by the simulator; values are compared by bits with an independent reading of the document."),
"C11":(T+"seeded interleavings of caller tasks under the race detector","Tasks switch at every instrumented statement chosen by the seed; results compared with isolated runs, races reported by Go's detector made deterministic by the scheduler."),
"C12":(T+"seeded interleavings of registrations and decodes, linearizability check","Locks are simulated so that every interleaving and deadlock is visible; history checked per key against an atomic register."),
"C13":(T+"document snapshots around faulty operations","Deep snapshots before and after each operation with drawn faults."),
"C14":(T+"stalls and failures with bounded steps, then recovery","Calls and statements are counted; a retry after the faults stop must equal a run that never saw one."),
"C15":(T+"payload relays through several encoders and decoders with failing factories","Payloads are compared as JSON values with an independent tree after each relay."),
"C16":(T+"assets from a simulated foreign writer, delivered by a simulated disk","An independent writer renders the document in drawn styles; what the decoder must return is known by construction."),
"C17":(T+"repeated encodes under drawn map orders, failures and encoder reuse","Map iteration order of the library is chosen by the simulator; bytes must be identical."),
"C18":(T+"histories of results held, overwritten and asked for again under delivery faults","Everything a run holds is compared with its snapshot after each step; overwriting a part is compared with the same on a deep copy. Sampled histories."),
"C19":(T+"recorded causes of injected failures vs the error returned","Each injected error is recorded when it is delivered; an error returned must be one of them or wrap one. Positions, calls, errors and deliveries are sampled."),
}
na={"N01":"pure arithmetic of its argument: no schedule, clock, fault or interleaving takes part, so simulation decides nothing about it",
"N02":"pure functions of one value: no schedule, clock, fault or interleaving takes part, so simulation decides nothing about them"}
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"none: nothing in /repo is changed for simulation","enable":"run.sh instruments a copy of the sources in a scratch directory and builds it with 'go build -overlay'; /repo is left as it is","source_commits":[]},
"checks":[],"not_applicable":[],
"notes":"run.sh ID runs a check; run.sh -replay FILE executes a replay file; VERIF_SEED, VERIF_TIER are honoured."}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"./run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+i,"evidence_file":f"evidence/{i}.json","technique":note[i][0],"level":"exploration","level_note":note[i][1]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"check under construction")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
