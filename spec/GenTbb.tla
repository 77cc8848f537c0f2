-------------------------------- MODULE GenTbb --------------------------------
(* Executions of TbbRuntime, to be imposed on the real code by the scheduler in harness/tbbmock. *)
EXTENDS TbbRuntime, Json, TLC
CONSTANTS Lo, Hi, Fair      \* Fair: no more than so many segments
VARIABLES r, hist, fin
Init == /\ \E n \in Lo .. Hi, k \in {"for", "reduce"} : r = Region(k, n)
        /\ hist = << >> /\ fin = FALSE
Go == /\ ~Finished(r) /\ UNCHANGED fin
      /\ \E a \in Actions(r) :
           \* a position is split at most once, or split and absorb could go on for ever
           /\ a[1] = "split" => Len(r.seg) < Fair /\ \A j \in DOMAIN hist : hist[j][1] = "split" => hist[j][3] # a[3]
           /\ r' = Step(r, a) /\ hist' = Append(hist, a)
Next == Go \/ (Finished(r) /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<r, hist>>)
Spec == Init /\ [][Next]_<<r, hist, fin>>
Emit == fin => PrintT("HIST " \o ToJson([kind |-> r.kind, n |-> r.n, a |-> hist]))
=============================================================================
