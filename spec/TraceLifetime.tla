---------------------------- MODULE TraceLifetime ----------------------------
(* Recorded calls: every allocation and release, every object a returned      *)
(* descriptor refers to (harness/drv_life.cpp), and the verdicts of the       *)
(* monitors (sanitizers, memcheck) on runs of the other drivers.              *)
EXTENDS Lifetime, Sequences, Integers, SequencesExt, FiniteSetsExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l, live, mark, next, phase>>
T == Traces[tid]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ LInit
\* a run of allocations (o > 0) and releases (-o), in order
MemStep(a) ==
    LET step(s, x) == IF ~ s.ok THEN s
                      ELSE IF x > 0 THEN [ok |-> x >= s.nx, L |-> s.L \cup {x}, nx |-> x + 1]
                      ELSE [ok |-> CanFree(-x, s.L), L |-> s.L \ {-x}, nx |-> s.nx]
        r == FoldLeft(step, [ok |-> TRUE, L |-> live, nx |-> next], a)
    IN r.ok /\ live' = r.L /\ next' = r.nx /\ UNCHANGED <<mark, phase>>
Step(e) == CASE e.op = "Mem" -> MemStep(e.a)
             [] e.op = "Enter" -> Enter
             [] e.op = "Return" -> Return
             [] e.op = "Handed" -> phase = "result" /\ ToSet(e.o) \subseteq live \cap mark /\ UNCHANGED lvars
             [] e.op = "Leave" -> Leave
             \* a monitored run: phase stays, no fault
             [] e.op = "Clean" -> phase = "out" /\ UNCHANGED lvars
             \* the same run twice, with different contents of the storage that was never written: the same outcome
             [] e.op = "Twice" -> phase = "out" /\ e.a = e.b /\ UNCHANGED lvars
             [] OTHER -> FALSE
TStep == l <= Len(T.ev) /\ Step(T.ev[l]) /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
