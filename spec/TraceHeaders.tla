---------------------------- MODULE TraceHeaders ----------------------------
(* One trace per configuration.  Unit: one header alone in a unit, whether it compiles, whether a use of what
   it offers compiles, the external symbols its object defines.  Pair: the unit linked with a copy of itself.
   Program: a program of several units of several headers, as really compiled and linked.
   All: by the reduction (MC_Headers) and the observed symbols, every pair of units of this configuration links. *)
EXTENDS Headers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, H
tvars == <<tid, l, H>>
T == Traces[tid]
Ev == T.ev[l]
Range_(s) == {s[i] : i \in DOMAIN s}
TInit == tid \in DOMAIN Traces /\ l = 1 /\ H = << >>
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED tid
TUnit == /\ Is("Unit") /\ Ev.compiled = 1 /\ Ev.usable = 1
         /\ H' = Append(H, [needs |-> {}, gives |-> {}, defs |-> Range_(Ev.symbols)])
TPair == Is("Pair") /\ Ev.linked = 1 /\ UNCHANGED H
TProgram == Is("Program") /\ (\A i \in DOMAIN Ev.compiled : Ev.compiled[i] = 1) /\ Ev.linked = 1 /\ UNCHANGED H
TAll == Is("All") /\ (\A a, b \in DOMAIN H : Links(H, <<<<a>>, <<b>>>>)) /\ UNCHANGED H
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TUnit \/ TPair \/ TProgram \/ TAll \/ TDone]_tvars
=============================================================================
