------------------------------- MODULE TraceTbb -------------------------------
(* Recorded calls of the TBB entry points with the executions the scheduler   *)
(* gave their regions: the executions must be legal, the calls CycleBasis      *)
(* behaviours.  A Race or Crash event is a step of neither.                    *)
EXTENDS TraceCycleBasis, TbbRuntime
TRegion == /\ IsEvent("Region") /\ call # Idle
           /\ LegalExecution(T.ev[l].kind, T.ev[l].n, T.ev[l].a) = TRUE
           /\ UNCHANGED cbvars
TbbNext == TNext \/ TRegion
TbbSpec == TInit /\ [][TbbNext]_tvars
=============================================================================
