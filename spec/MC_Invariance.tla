---------------------------- MODULE MC_Invariance ----------------------------
(* What the transformations claim about the optimum, for every graph on N vertices with
   weights 1..W, against the oracle; and the closed forms of the families.           *)
EXTENDS Invariance
CONSTANTS N, W
VARIABLE G
Pairs == SetToSeq({p \in (0..N-1) \X (0..N-1) : p[1] < p[2]})
From(f) == [n |-> N, den |-> 1, exp |-> 0,
            E |-> FoldLeft(LAMBDA acc, i : IF f[i] = 0 THEN acc ELSE Append(acc, <<Pairs[i][1], Pairs[i][2], f[i]>>), << >>, [i \in 1..Len(Pairs) |-> i])]
Perms(n) == {p \in [1..n -> 0..n-1] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Rot(m, k) == [i \in 1..m |-> ((i + k - 1) % m) + 1]
Ts(g) == {[t |-> "rename", p |-> p] : p \in Perms(g.n)}
   \cup {[t |-> "reorder", p |-> Rot(Len(g.E), k), f |-> [i \in 1..Len(g.E) |-> i % 2]] : k \in 0..Len(g.E)}
   \cup {[t |-> "isolated", k |-> 2]} \cup {[t |-> "pendant", v |-> v, w |-> 3] : v \in Vertices(g)}
   \cup {[t |-> "bridge", u |-> u, v |-> v, w |-> 2] : u \in Vertices(g), v \in Vertices(g)}
   \cup {[t |-> "subdivide", e |-> e, w |-> 1] : e \in Edges(g)} \cup {[t |-> "scaleint", k |-> k] : k \in 0..2}
Tri == [n |-> 3, den |-> 1, exp |-> 0, E |-> << <<0, 1, 1>>, <<1, 2, 2>>, <<2, 0, 2>> >>]
Init == G \in [1..Len(Pairs) -> 0..W] /\ gs = << >> /\ opts = << >>
Claims == LET g == From(G) o == MinBasisWeight(g) IN
    /\ \A t \in Ts(g) : Legal(g, t) => MinBasisWeight(Apply(g, t)) = NewOpt(o, t)
    /\ MinBasisWeight(Union(g, Tri)) = o + 5 /\ MinBasisWeight(Union(g, g)) = 2 * o
Next == FALSE /\ UNCHANGED <<G, gs, opts>>
Fam == {<<"grid", 2, 2>>, <<"grid", 3, 4>>, <<"grid", 1, 5>>, <<"complete", 3, 0>>, <<"complete", 5, 0>>, <<"bipartite", 2, 3>>, <<"bipartite", 3, 3>>, <<"cycle", 3, 0>>, <<"cycle", 6, 0>>,
        <<"wheel", 4, 0>>, <<"wheel", 5, 0>>, <<"wheel", 3, 0>>, <<"cube", 2, 0>>, <<"cube", 3, 0>>}
ASSUME \A f \in Fam : LET en == SetToSeq(FamilyEnds(f[1], f[2], f[3])) IN
    MinBasisWeight([n |-> FamilyN(f[1], f[2], f[3]), E |-> [i \in DOMAIN en |-> <<Min(en[i]), Max(en[i]), 1>>]]) = FamilyOpt(f[1], f[2], f[3])
=============================================================================
