------------------------------- MODULE TraceMpi -------------------------------
(* Recorded calls of the MPI entry points.  Ranks says how the call went on    *)
(* every rank: the collectives it took part in, the number of cycles it        *)
(* emitted, and how it ended.  A Hang is no step.                              *)
EXTENDS TraceCycleBasis
RanksOK(e) == /\ Len(e.seq) = e.P /\ Len(e.emitted) = e.P /\ Len(e.ended) = e.P
              /\ \A r \in 1 .. e.P : e.ended[r] = "returned" /\ e.seq[r] = e.seq[1]
              /\ \A r \in 2 .. e.P : e.emitted[r] = 0
TRanks == /\ IsEvent("Ranks") /\ call # Idle
          /\ RanksOK(T.ev[l]) = TRUE
          /\ UNCHANGED cbvars
MpiNext == TNext \/ TRanks
MpiSpec == TInit /\ [][MpiNext]_tvars
=============================================================================
