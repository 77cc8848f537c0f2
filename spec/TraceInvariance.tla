--------------------------- MODULE TraceInvariance ---------------------------
EXTENDS Invariance, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<tid, l, ivars>>
T == Traces[tid]
Ev == T.ev[l]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ IInit
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED tid
TBase == Is("Base") /\ Base(Ev.s, Ev.g)
TFam == Is("Family") /\ BaseFamily(Ev.s, Ev.g, Ev.f, Ev.a, Ev.b)
TTransform == Is("Transform") /\ Transform(Ev.s, Ev.t, Ev.g)
TJoin == Is("Join") /\ Join(Ev.g)
TObs == Is("Return") /\ Observe(Ev.s, Ev.w, Ev.x = 1)
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TBase \/ TFam \/ TTransform \/ TJoin \/ TObs \/ TDone]_tvars
=============================================================================
