-------------------------- MODULE TraceConcurrency --------------------------
(* limit = 0 until the first Set: nothing is promised then *)
EXTENDS Integers, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, limit
tvars == <<tid, l, limit>>
T == Traces[tid]
Ev == T.ev[l]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ limit = 0
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED tid
InForce(v) == limit = 0 \/ v = limit
TSet == Is("Set") /\ limit' = Ev.n
TQuery == Is("Query") /\ InForce(Ev.v) /\ UNCHANGED limit
\* v: what TBB allowed while the library was working (every value seen); threads: most threads inside that call at one time
TCall == Is("Call") /\ (\A i \in DOMAIN Ev.v : InForce(Ev.v[i])) /\ UNCHANGED limit
TThreads == Is("Threads") /\ (limit = 0 \/ Ev.threads <= limit) /\ UNCHANGED limit
\* a demo run with --cores n and a parallel algorithm
TDemo == Is("Demo") /\ Ev.v # << >> /\ (\A i \in DOMAIN Ev.v : Ev.v[i] = Ev.n) /\ Ev.threads <= Ev.n /\ UNCHANGED limit
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TSet \/ TQuery \/ TCall \/ TThreads \/ TDemo \/ TDone]_tvars
=============================================================================
