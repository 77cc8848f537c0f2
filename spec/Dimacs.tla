------------------------------- MODULE Dimacs -------------------------------
(* The DIMACS reader, one line at a time.  A line is a sequence of byte codes without
   its newline.  State: vertices declared, edges read so far in file order, error.
   A weight is <<integer part, millionths>> with its sign: [s, i, f].               *)
EXTENDS Integers, Sequences, SequencesExt

Space(c) == c \in {32, 9, 13, 11, 12}
Digit(c) == c \in 48..57
RECURSIVE Tokens(_, _, _)
\* fields of a line separated by blanks
Tokens(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = << >> THEN << >> ELSE <<cur>>)
    ELSE IF Space(s[i]) THEN (IF cur = << >> THEN Tokens(s, i + 1, << >>) ELSE <<cur>> \o Tokens(s, i + 1, << >>))
    ELSE Tokens(s, i + 1, Append(cur, s[i]))
Nat10(t) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)
Dot == 46
Minus == 45
Plus == 43
Decimal(t) ==
    LET sg == IF t # << >> /\ t[1] = Minus THEN -1 ELSE 1
        u == IF t # << >> /\ t[1] \in {Minus, Plus} THEN Tail(t) ELSE t
        d == {i \in DOMAIN u : u[i] = Dot}
        k == IF d = {} THEN Len(u) + 1 ELSE CHOOSE i \in d : TRUE
        fr == SubSeq(u, k + 1, Len(u))
        pad == [i \in 1..6 |-> IF i <= Len(fr) THEN fr[i] ELSE 48]
        w == [i |-> Nat10(SubSeq(u, 1, k - 1)), f |-> Nat10(pad)]
    IN [s |-> IF w.i = 0 /\ w.f = 0 THEN 0 ELSE sg, i |-> w.i, f |-> w.f]
UnitWeight == [s |-> 1, i |-> 1, f |-> 0]
Empty == [n |-> 0, E |-> << >>, err |-> FALSE]
IsComment(s) == s # << >> /\ s[1] \in {99, 35}             \* c, #
IsProblem(s) == s # << >> /\ s[1] = 112                    \* p
IsEdge(s) == s # << >> /\ s[1] \in {101, 97}               \* e, a
\* one line
ReadLine(st, s) ==
    IF st.err \/ s = << >> \/ IsComment(s) THEN st
    ELSE IF IsProblem(s) THEN LET t == Tokens(s, 1, << >>) IN [st EXCEPT !.n = Nat10(t[3])]
    ELSE IF IsEdge(s) THEN
        LET t == Tokens(s, 1, << >>) u == Nat10(t[2]) v == Nat10(t[3])
            w == IF Len(t) >= 4 THEN Decimal(t[4]) ELSE UnitWeight IN
        IF u \in 1..st.n /\ v \in 1..st.n THEN [st EXCEPT !.E = Append(@, <<u, v, w>>)] ELSE [st EXCEPT !.err = TRUE]
    ELSE st
\* the graph reported by the reader: undirected edges in file order
SameEdge(e, f) == e[3] = f[3] /\ (<<e[1], e[2]>> = <<f[1], f[2]>> \/ <<e[1], e[2]>> = <<f[2], f[1]>>)
SameGraph(st, n, E) == n = st.n /\ Len(E) = Len(st.E) /\ \A i \in DOMAIN E : SameEdge(E[i], st.E[i])

(* ---- validators on multigraphs, E[i] = <<u, v, w>> ---- *)
HasLoops(E) == \E i \in DOMAIN E : E[i][1] = E[i][2]
HasMultiple(E) == \E i, j \in DOMAIN E : i < j /\ {E[i][1], E[i][2]} = {E[j][1], E[j][2]}
HasNonPositive(E) == \E i \in DOMAIN E : E[i][3] <= 0
=============================================================================
