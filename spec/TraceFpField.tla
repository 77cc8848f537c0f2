----------------------------- MODULE TraceFpField -----------------------------
EXTENDS FpField, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, reg
tvars == <<tid, l, reg>>
T == Traces[tid]
Ev == T.ev[l]
NumOps == {"gcd", "inv", "prime"}
TInit == tid \in DOMAIN Traces /\ l = 1 /\ reg = [r \in 1..Traces[tid].n |-> [p |-> Big(3), v |-> {}]]
TGcd == Ev.op = "gcd" /\ ExtGcdOK(Ev.a, Ev.b, Ev.g, Ev.x, Ev.y) /\ UNCHANGED reg
TInv == Ev.op = "inv" /\ InverseOK(Ev.a, Ev.p, Ev.threw = 1, Ev.r) /\ UNCHANGED reg
TPrime == /\ Ev.op = "prime" /\ UNCHANGED reg
          /\ IF IsSmall(Ev.p) THEN (Ev.res = 1) = IsPrimeTrial(Small(Ev.p))
             ELSE IF Ev.factor # <<0>> THEN CompositeBy(Ev.p, Ev.factor) /\ Ev.res = 0
             ELSE LucasOK(Ev.p, Ev.gen, Ev.qs, Ev.fact) = TRUE /\ Ev.res = 1   \* "= TRUE": evaluated as a value, not split into disjuncts
TVec == /\ Ev.op \notin NumOps \cup {"Crash"}
        /\ OpEnabled(reg, Ev)
        /\ Ev.res = OpRes(reg, Ev)
        /\ reg' = OpReg(reg, Ev)
        /\ \A r \in DOMAIN reg : reg'[r].v # Moved =>
              /\ Ev.after[r].p = reg'[r].p
              /\ Ev.after[r].size = Cardinality(reg'[r].v)
              /\ VCanonical(Ev.after[r].v, reg'[r].v, reg'[r].p)
TStep == l <= Len(T.ev) /\ (TGcd \/ TInv \/ TPrime \/ TVec) /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TStep \/ TDone]_tvars
=============================================================================
