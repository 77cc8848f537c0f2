---------------------------- MODULE MC_TbbRuntime ----------------------------
(***************************************************************************)
(* What the library does inside a region, under every schedule.             *)
(*                                                                          *)
(* reduce: the minimum reduction of OddCycleFinder and of                   *)
(* ShortestOddCycleLookup.  Element e has weight val[e] (0: no odd cycle).  *)
(* A search is given the running minimum as a limit; when no lighter cycle  *)
(* exists it may come back with nothing or with any heavier one (the        *)
(* bidirectional search stops early).  A partial value is <<weight, elem>>. *)
(*                                                                          *)
(* for: every element pushes itself to a concurrent vector (support         *)
(* initialisation, cycles of the non-spanner edges) and, independently,     *)
(* updates its own row (support update).                                    *)
(***************************************************************************)
EXTENDS TbbRuntime, TLC
CONSTANTS N, W, Kind

VARIABLES r, val, part, done, pushed, rows
\* part[i]: partial value of segment i; done[i]: the elements accumulated in it, in order
vars == <<r, val, part, done, pushed, rows>>

None == <<0, 0>>
Better(x, y) == x[1] # 0 /\ (y[1] = 0 \/ x[1] < y[1])
JoinMin(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN (IF a[1] # 0 THEN a ELSE b)
                 ELSE IF ~(b[1] < a[1]) THEN a ELSE b

Init == /\ \E n \in 0 .. N : r = Region(Kind, n)
        /\ val \in (IF Kind = "reduce" THEN [1 .. r.n -> 0 .. W] ELSE {[e \in 1 .. r.n |-> 1]})
        /\ part = [i \in DOMAIN r.seg |-> None]
        /\ done = [i \in DOMAIN r.seg |-> << >>]
        /\ pushed = << >> /\ rows = [e \in 1 .. r.n |-> 0]

\* one chunk lo+1 .. hi of the reduction, starting from partial value p: every outcome the searches may have
RECURSIVE Outcomes(_, _, _)
Outcomes(lo, hi, p) ==
    IF lo = hi THEN {p}
    ELSE LET e == lo + 1
             found == {<<val[e], e>>} \ {<<0, e>>}
             \* with a limit, anything not lighter may be reported or dropped
             res == IF Better(<<val[e], e>>, p) THEN found ELSE found \cup {None}
         IN UNION {Outcomes(lo + 1, hi, IF Better(x, p) THEN x ELSE p) : x \in res}

Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Act(a) ==
    /\ CanStep(r, a) /\ r' = Step(r, a) /\ UNCHANGED val
    /\ LET i == a[2] s == r.seg[i] IN
       CASE a[1] = "split" -> part' = Ins(part, i, None) /\ done' = Ins(done, i, << >>) /\ UNCHANGED <<pushed, rows>>
         [] a[1] = "begin" -> UNCHANGED <<part, done, pushed, rows>>
         [] a[1] = "end"   -> /\ done' = [done EXCEPT ![i] = @ \o [j \in 1 .. s.busy - s.done |-> s.done + j]]
                              /\ IF Kind = "reduce"
                                 THEN \E x \in Outcomes(s.done, s.busy, part[i]) : part' = [part EXCEPT ![i] = x]
                                 ELSE UNCHANGED part
                              /\ Kind = "for" => \A e \in s.done + 1 .. s.busy : rows[e] = 1
                              /\ UNCHANGED <<pushed, rows>>
         [] a[1] = "join"  -> part' = Del([part EXCEPT ![i] = JoinMin(part[i], part[i + 1])], i + 1)
                              /\ done' = Del([done EXCEPT ![i] = @ \o done[i + 1]], i + 1) /\ UNCHANGED <<pushed, rows>>
         [] a[1] = "absorb" -> part' = Del(part, i + 1) /\ done' = Del(done, i + 1) /\ UNCHANGED <<pushed, rows>>

\* inside a busy chunk: the next element pushes and updates its row
Push == /\ Kind = "for"
        /\ \E i \in DOMAIN r.seg : LET s == r.seg[i] IN
             /\ s.busy # 0
             /\ \E e \in s.done + 1 .. s.busy :
                   /\ rows[e] = 0 /\ \A d \in s.done + 1 .. e - 1 : rows[d] = 1
                   /\ pushed' = Append(pushed, e) /\ rows' = [rows EXCEPT ![e] = 1]
        /\ UNCHANGED <<r, val, part, done>>

Next == (\E a \in Actions(r) : Act(a)) \/ Push
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
LeftMin(lo, hi) ==
    LET F == {e \in lo + 1 .. hi : val[e] # 0}
        m == CHOOSE m \in {val[e] : e \in F} : \A e \in F : m <= val[e]
    IN IF F = {} THEN None ELSE <<m, CHOOSE e \in F : val[e] = m /\ \A d \in F : val[d] = m => e <= d>>
Shape == Partition(r)
\* every element is accumulated exactly once, in order: any associative join with this identity gives the sequential result
EachOnce == \A i \in DOMAIN r.seg : done[i] = [j \in 1 .. r.seg[i].done - r.seg[i].lo |-> r.seg[i].lo + j]
\* the minimum is found under every schedule; even the choice between ties is that of the sequential run
MinFound == Kind = "reduce" => \A i \in DOMAIN r.seg : part[i] = LeftMin(r.seg[i].lo, r.seg[i].done)
Result == Kind = "reduce" /\ Finished(r) /\ r.n > 0 => part[1] = LeftMin(0, r.n)
\* the pushed vector is a permutation, rows have been written once
PushedOnce == \A i, j \in DOMAIN pushed : pushed[i] = pushed[j] => i = j
AllPushed == Kind = "for" /\ Finished(r) => Len(pushed) = r.n
=============================================================================
