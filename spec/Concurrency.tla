---------------------------- MODULE Concurrency ----------------------------
(* TBB's max_allowed_parallelism and set_global_tbb_concurrency.
   The runtime keeps a bag of live control objects; what it allows is the smallest of them, or the
   hardware value when there is none.  The function replaces the object it holds.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS HW, MaxN, Impl       \* Impl: "held" (as intended), "temporary", "leaked", "first"
VARIABLES live, held, next, asked, busy
vars == <<live, held, next, asked, busy>>
\* live: object -> limit
Allowed == IF DOMAIN live = {} THEN HW ELSE Min({live[x] : x \in DOMAIN live})
Init == live = << >> /\ held = 0 /\ next = 1 /\ asked = 0 /\ busy = FALSE
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Set(n) == /\ ~busy /\ next <= 5 /\ asked' = n /\ UNCHANGED busy
          /\ CASE Impl = "held" -> live' = (next :> n) @@ Drop(live, held) /\ held' = next /\ next' = next + 1
               [] Impl = "temporary" -> next' = next + 1 /\ UNCHANGED <<live, held>>
               [] Impl = "leaked" -> live' = (next :> n) @@ live /\ held' = next /\ next' = next + 1
               [] Impl = "first" -> IF held = 0 THEN live' = (next :> n) @@ live /\ held' = next /\ next' = next + 1
                                                ELSE next' = next + 1 /\ UNCHANGED <<live, held>>
Call == ~busy /\ busy' = TRUE /\ UNCHANGED <<live, held, next, asked>>
Return == busy /\ busy' = FALSE /\ UNCHANGED <<live, held, next, asked>>
Next == (\E n \in 1..MaxN : Set(n)) \/ Call \/ Return
Spec == Init /\ [][Next]_vars
InForce == asked # 0 => Allowed = asked
=============================================================================
