----------------------------- MODULE TraceGF2Vec -----------------------------
EXTENDS GF2Vec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, reg
tvars == <<tid, l, reg>>
T == Traces[tid]
Ev == T.ev[l]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ reg = [r \in 1..Traces[tid].n |-> {}]
TOp == /\ l <= Len(T.ev) /\ Ev.op # "Crash"
       /\ OpEnabled(reg, Ev)
       /\ Ev.res = OpRes(reg, Ev)
       /\ reg' = OpReg(reg, Ev)
       \* every object lists exactly its coordinates, in order, and size() counts them
       /\ \A r \in DOMAIN reg : reg'[r] # Moved => Canonical(Ev.after[r], reg'[r]) /\ Ev.size[r] = Cardinality(reg'[r])
       /\ l' = l + 1 /\ UNCHANGED tid
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TOp \/ TDone]_tvars
=============================================================================
