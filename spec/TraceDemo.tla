----------------------------- MODULE TraceDemo -----------------------------
(* Runs of the real programs on one file.  The file is read line by line with Dimacs.tla; Gate classifies it
   and computes the optimum; every Run must be one the property allows, and Runs of one kind must agree. *)
EXTENDS Graphs, Json, IOUtils
D == INSTANCE Dimacs
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, opt, seen
tvars == <<tid, l, st, opt, seen>>
T == Traces[tid]
Ev == T.ev[l]
TInit == tid \in DOMAIN Traces /\ l = 1 /\ st = D!Empty /\ opt = -1 /\ seen = << >>
Is(op) == l <= Len(T.ev) /\ Ev.op = op /\ l' = l + 1 /\ UNCHANGED tid
TLine == Is("Line") /\ st' = D!ReadLine(st, Ev.s) /\ UNCHANGED <<opt, seen>>
Scaled(w) == w.s * (w.i * T.den + (w.f \div (1000000 \div T.den)))
AsGraph == [n |-> st.n, E |-> [i \in DOMAIN st.E |-> <<st.E[i][1] - 1, st.E[i][2] - 1, Scaled(st.E[i][3])>>]]
\* which preconditions the file violates
Bad(g) == (IF D!HasLoops(g.E) THEN {"loop"} ELSE {}) \cup (IF D!HasMultiple(g.E) THEN {"multiple"} ELSE {})
          \cup (IF D!HasNonPositive(g.E) THEN {"nonpositive"} ELSE {})
TGate == /\ Is("Gate") /\ ~st.err
         /\ LET g == AsGraph IN
            /\ Range(Ev.bad) = Bad(g)                         \* the generator meant this file
            /\ opt' = IF Bad(g) = {} THEN MinBasisWeight(g) ELSE -1
         /\ UNCHANGED <<st, seen>>
Rejected(r) == /\ \A i \in DOMAIN r.codes : r.codes[i] \in (1..125 \cup {134, -2})   \* -2: ended by the launcher
               /\ \E i \in DOMAIN r.codes : r.codes[i] \in (1..125 \cup {134})
               /\ r.exit # 0 \/ r.prog = "mpi"
               /\ r.diag = 1 /\ r.weights = << >> /\ r.ran = << >>
\* which weights must agree: those of the exact programs, and those of the approximate one for the same k
Class(r) == IF r.prog = "approx" THEN r.k ELSE 0
Within(w, r) == IF r.prog = "approx" THEN w[2] >= opt /\ w[1] <= (2 * r.k - 1) * opt ELSE w[1] <= opt /\ opt <= w[2]
Accepted(r) == /\ r.exit = 0 /\ \A i \in DOMAIN r.codes : r.codes[i] = 0
               /\ IF r.prog = "stats" THEN TRUE
                  ELSE /\ r.weights # << >>
                       /\ \A i \in DOMAIN r.weights : /\ Within(r.weights[i], r)
                                                      /\ Class(r) \in DOMAIN seen => r.weights[i] = seen[Class(r)]
TRun == /\ Is("Run")
        /\ (IF opt = -1 THEN Rejected(Ev) ELSE Accepted(Ev)) = TRUE
        /\ seen' = IF opt # -1 /\ Ev.prog # "stats" /\ Class(Ev) \notin DOMAIN seen THEN (Class(Ev) :> Ev.weights[1]) @@ seen ELSE seen
        /\ UNCHANGED <<st, opt>>
TDone == l > Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TLine \/ TGate \/ TRun \/ TDone]_tvars
=============================================================================
