--------------------------- MODULE TraceCycleBasis ---------------------------
(* Recorded calls of the real entry points, checked against CycleBasis.      *)
EXTENDS CycleBasis, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l
tvars == <<tid, l, cbvars>>

T == Traces[tid]
GraphOf(t) == [n |-> t.n, E |-> t.E]
IsEvent(op) == l >= 1 /\ l <= Len(T.ev) /\ T.ev[l].op = op /\ l' = l + 1 /\ UNCHANGED tid

TInit == tid \in DOMAIN Traces /\ l = 0 /\ CBInit

TLoad == l = 0 /\ l' = 1 /\ UNCHANGED tid /\ Load(GraphOf(T))
TCall == IsEvent("Call") /\ Call(T.ev[l].alg, T.ev[l].k)
TEmit == /\ IsEvent("Emit")
         /\ Emit(T.ev[l].c)
         /\ Has("maps") => T.ev[l].w = weights'[Len(weights')] /\ T.ev[l].x = 1
TReturn == IsEvent("Return") /\ Return(T.ev[l].w, T.ev[l].x = 1, T.ev[l].nr = 1)
TThrow == IsEvent("Throw") /\ T.ev[l].what = "std" /\ Throw
TDone == l > Len(T.ev) /\ call = Idle /\ UNCHANGED tvars

TNext == TLoad \/ TCall \/ TEmit \/ TReturn \/ TThrow \/ TDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
