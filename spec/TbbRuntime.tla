----------------------------- MODULE TbbRuntime -----------------------------
(***************************************************************************)
(* The legal executions of one parallel region of the TBB runtime, as far   *)
(* as the library can observe them: tbb::parallel_for and                   *)
(* tbb::parallel_reduce over an index range 0 .. n-1.                       *)
(*                                                                          *)
(* The range is a sequence of segments.  A segment [lo, hi) is processed    *)
(* from left to right in chunks; done is how far it has got.  In a reduce   *)
(* every segment carries a partial value which starts from the identity     *)
(* and is handed from chunk to chunk.                                       *)
(*   Split   somebody steals the unprocessed end of a segment; the thief    *)
(*           starts a new partial value from the identity                   *)
(*   Begin / End   a chunk is executed, interleaved with other segments     *)
(*   Join    two adjacent completed segments: value = join(left, right)     *)
(*   Absorb  a completed segment goes on with the untouched one to its      *)
(*           right, keeping its value                                       *)
(* The region finishes when everything is processed and, for a reduce, one  *)
(* segment is left.  Number of workers: as many as there are busy segments. *)
(*                                                                          *)
(* The actions are operators on a region record, so that design models,     *)
(* the schedule generator and the trace specification share them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Seg(lo, hi) == [lo |-> lo, hi |-> hi, done |-> lo, busy |-> 0]
Region(kind, n) == [kind |-> kind, n |-> n, seg |-> IF n = 0 THEN << >> ELSE <<Seg(0, n)>>]

Complete(s) == s.busy = 0 /\ s.done = s.hi
Frontier(s) == IF s.busy = 0 THEN s.done ELSE s.busy

\* an action is <<name, segment, position>>
CanStep(r, a) ==
    LET i == a[2] m == a[3] IN
    /\ i \in DOMAIN r.seg
    /\ LET s == r.seg[i] IN
       CASE a[1] = "split"  -> m >= Frontier(s) /\ m > s.lo /\ m < s.hi
         [] a[1] = "begin"  -> s.busy = 0 /\ s.done < m /\ m <= s.hi
         [] a[1] = "end"    -> s.busy # 0
         [] a[1] = "join"   -> r.kind = "reduce" /\ i < Len(r.seg) /\ Complete(s) /\ Complete(r.seg[i + 1])
         [] a[1] = "absorb" -> r.kind = "reduce" /\ i < Len(r.seg) /\ Complete(s)
                               /\ r.seg[i + 1].done = r.seg[i + 1].lo /\ r.seg[i + 1].busy = 0
         [] OTHER -> FALSE

Merge(r, i, done) ==
    SubSeq(r.seg, 1, i - 1) \o <<[lo |-> r.seg[i].lo, hi |-> r.seg[i + 1].hi, done |-> done, busy |-> 0]>>
        \o SubSeq(r.seg, i + 2, Len(r.seg))

Step(r, a) ==
    LET i == a[2] m == a[3] s == r.seg[i] IN
    CASE a[1] = "split"  -> [r EXCEPT !.seg = SubSeq(r.seg, 1, i - 1) \o <<[s EXCEPT !.hi = m], Seg(m, s.hi)>>
                                               \o SubSeq(r.seg, i + 1, Len(r.seg))]
      [] a[1] = "begin"  -> [r EXCEPT !.seg[i].busy = m]
      [] a[1] = "end"    -> [r EXCEPT !.seg[i].done = s.busy, !.seg[i].busy = 0]
      [] a[1] = "join"   -> [r EXCEPT !.seg = Merge(r, i, r.seg[i + 1].hi)]
      [] a[1] = "absorb" -> [r EXCEPT !.seg = Merge(r, i, s.hi)]

Finished(r) == /\ \A i \in DOMAIN r.seg : Complete(r.seg[i])
               /\ r.kind = "reduce" => Len(r.seg) <= 1

Names == {"split", "begin", "end", "join", "absorb"}
Actions(r) == {a \in Names \X (DOMAIN r.seg) \X (0 .. r.n) :
                  /\ a[1] \in {"end", "join", "absorb"} => a[3] = 0
                  /\ CanStep(r, a)}

\* a whole execution, as recorded: fold the actions, stop at the first illegal one
Play(kind, n, acts) ==
    FoldLeft(LAMBDA st, a : IF st.ok /\ CanStep(st.r, a) THEN [ok |-> TRUE, r |-> Step(st.r, a)] ELSE [ok |-> FALSE, r |-> st.r],
             [ok |-> TRUE, r |-> Region(kind, n)], acts)
LegalExecution(kind, n, acts) == LET st == Play(kind, n, acts) IN st.ok /\ Finished(st.r)

\* the segments partition the range, whatever happens
Partition(r) ==
    r.n > 0 => /\ r.seg[1].lo = 0 /\ r.seg[Len(r.seg)].hi = r.n
               /\ \A i \in DOMAIN r.seg : r.seg[i].lo < r.seg[i].hi /\ r.seg[i].lo <= r.seg[i].done /\ r.seg[i].done <= r.seg[i].hi
               /\ \A i \in 1 .. Len(r.seg) - 1 : r.seg[i].hi = r.seg[i + 1].lo
=============================================================================
