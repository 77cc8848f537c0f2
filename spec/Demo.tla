-------------------------------- MODULE Demo --------------------------------
(* A demo program as P processes reading one file: gate, run, report, leave.  The algorithm of the
   MPI program and MPI_Finalize are collective: a process gets past them only when all have arrived.
   Gate = "all" is the program as intended; "root" has only process 0 looking at the input.      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS P, Rounds, Gate
Procs == 0..(P - 1)
VARIABLES bad, pc, round, code, said, printed
vars == <<bad, pc, round, code, said, printed>>
Init == /\ bad \in BOOLEAN /\ pc = [r \in Procs |-> "read"] /\ round = [r \in Procs |-> 0]
        /\ code = [r \in Procs |-> -1] /\ said = FALSE /\ printed = {}
Looks(r) == Gate = "all" \/ r = 0
Check(r) == /\ pc[r] = "read"
            /\ IF bad /\ Looks(r) THEN pc' = [pc EXCEPT ![r] = "leave"] /\ code' = [code EXCEPT ![r] = 1] /\ said' = (said \/ r = 0)
                                  ELSE pc' = [pc EXCEPT ![r] = "work"] /\ UNCHANGED <<code, said>>
            /\ UNCHANGED <<bad, round, printed>>
\* the k-th collective operation of the algorithm
Work(r) == /\ pc[r] = "work" /\ round[r] < Rounds
           /\ \A s \in Procs : (pc[s] = "work" /\ round[s] >= round[r]) \/ code[s] = 0
           /\ round' = [round EXCEPT ![r] = @ + 1] /\ UNCHANGED <<bad, pc, code, said, printed>>
Report(r) == /\ pc[r] = "work" /\ round[r] = Rounds
             /\ pc' = [pc EXCEPT ![r] = "leave"] /\ code' = [code EXCEPT ![r] = 0]
             /\ printed' = printed \cup (IF r = 0 THEN {"optimum"} ELSE {}) /\ UNCHANGED <<bad, round, said>>
Leave(r) == /\ pc[r] = "leave" /\ \A s \in Procs : pc[s] \in {"leave", "gone"}
            /\ pc' = [pc EXCEPT ![r] = "gone"] /\ UNCHANGED <<bad, round, code, said, printed>>
Next == \E r \in Procs : Check(r) \/ Work(r) \/ Report(r) \/ Leave(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Gated == bad => /\ \A r \in Procs : pc[r] # "work" /\ round[r] = 0 /\ code[r] # 0
                /\ printed = {}
Ended == \A r \in Procs : pc[r] = "gone"
Honest == Ended => IF bad THEN said /\ \A r \in Procs : code[r] > 0
                   ELSE printed = {"optimum"} /\ \A r \in Procs : code[r] = 0
Terminates == <>Ended
=============================================================================
