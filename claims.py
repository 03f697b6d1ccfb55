TECH = {
 "C07": "context-sensitive lockset and lock-order analysis over go/ssa (a common lock for every location written after publication, aliases of maps and slices included; one acquisition order; no wait under a lock; no goroutine in a handler), plus path-by-path comparison of the locked sections of lookups, updates and registrations with reference definitions",
 "C03": T + "; goroutine loops followed action by action (every prefix of a run compared); effect analysis of who may change the interest set, the node and the request queue; call-graph rule on who subscribes",
 "C04": T + "; goroutine loops followed action by action (every prefix of a run compared), goroutine roles found by what they read, write or receive; alias-following effect analysis of nonces and streams",
 "C19": T + "; the sweeping goroutine followed action by action with generic map iterations; path rule on the stamping of hits; effect analysis of who may remove entries or stamp them",
 "C01": T + "; alias-following effect analysis of who may write the cache",
 "C02": T + "; alias-following effect analysis of who may write versions and nonces",
 "C05": "interprocedural path-sensitive value-numbering dataflow over go/ssa with path rules on outcomes, waits and the provenance of values",
 "C06": T + "; shared state forgotten at every lock release and wait; effect analysis of who may touch the waiters",
}
