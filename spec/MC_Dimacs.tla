------------------------------ MODULE MC_Dimacs ------------------------------
(* The reader of util.hpp at byte level: fgets into a buffer of B bytes, newline cut,
   dispatch on the first byte.  For every text of well-formed lines shorter than the
   buffer (all texts over the line set below, with and without a final newline) its
   result is the one of Dimacs.  Also: the validators as loops over adjacency lists.  *)
EXTENDS Dimacs, FiniteSets
CONSTANTS MaxLines, B
L == {<<99>>, <<35, 101, 32, 49>>, <<99, 32, 112>>, <<101, 32, 49, 32, 50>>, <<97, 32, 50, 32, 49>>,
      <<101, 32, 49, 32, 50, 32, 50>>, <<97, 32, 49, 32, 49, 32, 48>>, <<101, 32, 51, 32, 50>>, <<101, 32, 48, 32, 49>>, <<101, 32, 49, 32, 50, 32, 46, 53>>}
P2 == <<112, 32, 120, 32, 50, 32, 49>>
Texts == UNION { [1..k -> L \cup {P2}] : k \in 0..MaxLines }
VARIABLES lines, nl, text, pos, st, line
vars == <<lines, nl, text, pos, st, line>>
RECURSIVE Bytes(_, _)
Bytes(ls, final) == IF ls = << >> THEN << >> ELSE IF Len(ls) = 1 /\ ~final THEN ls[1] ELSE ls[1] \o <<10>> \o Bytes(Tail(ls), final)
Init == /\ lines \in {t \in Texts : Cardinality({i \in DOMAIN t : t[i] = P2}) <= 1} /\ nl \in BOOLEAN
        /\ text = Bytes(lines, nl) /\ pos = 1 /\ st = Empty /\ line = << >>
\* fgets: up to B-1 bytes, stops after a newline
Chunk == LET stop == {k \in pos..Len(text) : text[k] = 10 \/ k - pos + 1 = B - 1} IN
         IF stop = {} THEN SubSeq(text, pos, Len(text)) ELSE SubSeq(text, pos, CHOOSE k \in stop : \A j \in stop : k <= j)
Cut(c) == IF c # << >> /\ c[Len(c)] = 10 THEN SubSeq(c, 1, Len(c) - 1) ELSE c
Read == /\ pos <= Len(text) /\ ~st.err
        /\ line' = Cut(Chunk) /\ st' = ReadLine(st, Cut(Chunk)) /\ pos' = pos + Len(Chunk)
        /\ UNCHANGED <<lines, nl, text>>
Spec == Init /\ [][Read]_vars
End == pos > Len(text) \/ st.err
Faithful == End => st = FoldLeft(ReadLine, Empty, lines)
NeverBoth == st.err => \A i \in DOMAIN st.E : st.E[i][1] \in 1..st.n

\* adjacency-list loops of has_multiple_edges on loop-free multigraphs
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 2>>}
MG == UNION { [1..k -> Pairs] : k \in 0..4 }
Nbrs(E, v) == [i \in {j \in DOMAIN E : v \in {E[j][1], E[j][2]}} |-> IF E[i][1] = v THEN E[i][2] ELSE E[i][1]]
ASSUME \A E \in MG : HasMultiple([i \in DOMAIN E |-> <<E[i][1], E[i][2], 1>>])
         <=> \E v \in 1..3 : LET f == Nbrs(E, v) IN Cardinality({f[i] : i \in DOMAIN f}) < Cardinality(DOMAIN f)
=============================================================================
