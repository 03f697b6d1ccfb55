#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED: property -> what the check assures / trusts.
import json
T = "interprocedural path-sensitive value-numbering dataflow over go/ssa, compared path by path with a reference definition"
BASE = ("Static: every path of the named functions (callees inlined, loops summarised by one generic iteration) is "
        "evaluated over symbolic terms and must leave the same results and effects as the reference in /verif/refs. "
        "Trusts the term rules, the models of the listed library calls and the reference text. ")
CLAIMED = {
 "C01": "All states of client and cache and any response, one at a time; the fold follows by induction. Who may write the cache is decided by an alias-following effect analysis.",
 "C02": "All states of the client and any response; the decoders report an error exactly when a resource fails to decode (C13) with a non-empty message. Who may write versions and nonces is decided by an alias-following effect analysis.",
 "C14": "All addresses, name tables and LDS responses; library string functions follow the term rules (Split, TrimSuffix, Index, ToLower).",
 "C08": "All route tables and calls; Matcher methods and getters of rpcinfo are deterministic.",
 "C10": "All clusters and load assignments; discovery.NewInstance keeps its arguments; lookups behave as C05 states.",
 "C15": "All calls and control-plane answers; resources have the shape the decoders give them (C11, C12); resolved rpcinfo objects are the mutable kitex ones.",
 "C16": "Any state of the breaker and any two updates; updates arrive one at a time (C07).",
 "C17": "Any state of the suite and any two updates; updates arrive one at a time (C07).",
 "C18": "Any state of the limiter and any update; updates arrive one at a time (C07).",
 "C11": "All response payloads; proto.Unmarshal either rejects the bytes or yields a message; header matchers are compared up to their meaning (C08).",
 "C12": "All response payloads; proto.Unmarshal either rejects the bytes or yields a message.",
 "C13": "All response payloads; a decoded message has no nil list or map element and no empty oneof wrapper (protobuf-go); stack and memory exhaustion are out of scope.",
 "C07": "All interleavings of all entry points, goroutines and handlers: locksets are computed for every calling context. Locks are told apart by the field that holds them, not by object; the fields of a notifier are covered by the step-wise reference of a lookup instead of the lock rule; state of other libraries is not followed; Close against Close is outside. Linearizability is argued from the atomic sections (each equal to its reference) rather than by enumerating histories. Known finding: a full request queue together with a reconnect can deadlock.",
 "C05": "All types, names, states and interleavings (see C06); that a closed notifier holds its resource is C06. Mutexes are assumed to be released promptly by everybody else, which the rule on waits supports; one known finding (a full request queue).",
 "C06": "All interleavings with any number of other lookups, updates and evictions: everything the lock of the manager guards is forgotten at every release and wait, and whatever a section changed is compared as one action. Which ready alternative a select takes is arbitrary. Trusts that the goroutines keep to the lock (C07).",
 "C20": "All environments, options and outcomes of starting a client; the JSON of the metadata variable is any string; the lookups of the managers of the suite are counted.",
 "C03": "All histories and schedules, one step at a time: the state behind the client's lock is forgotten between sections; every prefix of a run of the sender of up to 3 actions (queued request, new stream, failed send), every way a subscription, acknowledgement or re-subscription builds its request, who may change the interest set, which lookups and sweeps call Watch. The quiescence consequence follows by argument (every change enqueues a request under the same lock; the queue is FIFO with one consumer), not by enumeration; channel fairness is assumed.",
 "C04": "All failure positions within runs of the receiver, the sender and the reconnect loop of up to 3 actions, from any state (loop iterations are generic states, so a prefix stands for the continuation from any point); which ready select alternative is taken is arbitrary; back-off durations are not modelled. A Send failure is assumed to be seen by Recv too; Close against Close and a response racing with the hand-over of a new stream are outside.",
 "C19": "Any cache and any access times: one generic sweep (every type, every name), every lookup path, every update; time.Since is an arbitrary duration. Eviction racing with a lookup or an update is covered in atomic sections, except between the filter of a response and its application (listed as a limitation in DESIGN.md).",
 "C09": "All weight lists; fastrand.Uint32n(n) is uniform in [0,n); the sum of weights fits in 32 bits.",
}
NA = {}
exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'claims.py')).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh " + p + " thorough",
                 "technique": TECH.get(p, T), "level": "other", "level_note": BASE + CLAIMED[p]} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in ids if p not in CLAIMED],
     "notes": "Static analysis of /repo's current source; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
