------------------------------ MODULE Invariance ------------------------------
(* The minimum basis weight as a function of the weighted graph alone.  Two slots hold
   a graph and what is known about its optimum (-1: not yet observed).  Every action
   transforms a graph and says what happens to the optimum; Observe is a call of some
   exact entry point on the graph of a slot.                                        *)
EXTENDS Graphs

Unknown == -1
VARIABLES gs, opts
ivars == <<gs, opts>>
Slots == {1, 2}
NoG == [n |-> 0, E |-> << >>, den |-> 1, exp |-> 0]
IInit == gs = [s \in Slots |-> NoG] /\ opts = [s \in Slots |-> 0]

\* ---- graph families with a known optimum for unit weights
Ends2(E) == {{E[i][1], E[i][2]} : i \in DOMAIN E}
GridEnds(a, b) == {{i * b + j, i * b + j + 1} : i \in 0..a-1, j \in 0..b-2} \cup {{i * b + j, (i + 1) * b + j} : i \in 0..a-2, j \in 0..b-1}
CompleteEnds(n) == {{u, v} : u \in 0..n-1, v \in 0..n-1} \ {{u} : u \in 0..n-1}
BipEnds(a, b) == {{u, a + v} : u \in 0..a-1, v \in 0..b-1}
CycleEnds(n) == {{i, (i + 1) % n} : i \in 0..n-1}
WheelEnds(n) == CycleEnds(n) \cup {{i, n} : i \in 0..n-1}
Bit(x, k) == (x \div (2^k)) % 2
QEnds(d) == UNION {{{x, x + 2^k} : x \in {y \in 0..2^d-1 : Bit(y, k) = 0}} : k \in 0..d-1}
FamilyEnds(f, a, b) == CASE f = "grid" -> GridEnds(a, b) [] f = "complete" -> CompleteEnds(a) [] f = "bipartite" -> BipEnds(a, b)
                         [] f = "cycle" -> CycleEnds(a) [] f = "wheel" -> WheelEnds(a) [] f = "cube" -> QEnds(a)
FamilyN(f, a, b) == CASE f = "grid" -> a * b [] f = "complete" -> a [] f = "bipartite" -> a + b [] f = "cycle" -> a [] f = "wheel" -> a + 1 [] f = "cube" -> 2^a
FamilyOpt(f, a, b) == CASE f = "grid" -> 4 * (a-1) * (b-1) [] f = "complete" -> 3 * (((a-1) * (a-2)) \div 2) [] f = "bipartite" -> 4 * (a-1) * (b-1)
                        [] f = "cycle" -> a [] f = "wheel" -> 3 * a [] f = "cube" -> 4 * (a * 2^(a-1) - 2^a + 1)
IsFamily(G, f, a, b) == G.n = FamilyN(f, a, b) /\ Ends2(G.E) = FamilyEnds(f, a, b) /\ Len(G.E) = Cardinality(FamilyEnds(f, a, b))

\* ---- transformations of a graph; x are the parameters
Rename(G, p) == [G EXCEPT !.E = [i \in DOMAIN G.E |-> <<p[G.E[i][1] + 1], p[G.E[i][2] + 1], G.E[i][3]>>]]
Reorder(G, q, flip) == [G EXCEPT !.E = [i \in DOMAIN G.E |-> LET e == G.E[q[i]] IN IF flip[i] = 1 THEN <<e[2], e[1], e[3]>> ELSE e]]
IsPerm(p, lo, n) == Len(p) = n /\ {p[i] : i \in DOMAIN p} = lo..lo+n-1
AddIsolated(G, k) == [G EXCEPT !.n = @ + k]
AddPendant(G, v, w) == [G EXCEPT !.n = @ + 1, !.E = Append(@, <<v, G.n, w>>)]
AddBridge(G, u, v, w) == [G EXCEPT !.E = Append(@, <<u, v, w>>)]
Subdivide(G, e, w1) == [G EXCEPT !.n = @ + 1, !.E = Append([@ EXCEPT ![e] = <<@[1], G.n, w1>>], <<G.n, G.E[e][2], G.E[e][3] - w1>>)]
Union(G, H) == [n |-> G.n + H.n, E |-> G.E \o [i \in DOMAIN H.E |-> <<H.E[i][1] + G.n, H.E[i][2] + G.n, H.E[i][3]>>], den |-> G.den, exp |-> G.exp]
ScaleInt(G, k) == [G EXCEPT !.E = [i \in DOMAIN G.E |-> <<G.E[i][1], G.E[i][2], G.E[i][3] * 2^k>>]]
\* weights over 2^k times the denominator, or times 2^k through the exponent: the same numerators
ScaleDen(G, k) == [G EXCEPT !.den = @ * 2^k]
ScaleExp(G, k) == [G EXCEPT !.exp = @ + k]
\* is H the stated transformation of G, and the factor by which the optimum grows
Legal(G, t) ==
    CASE t.t = "rename" -> IsPerm(t.p, 0, G.n)
      [] t.t = "reorder" -> IsPerm(t.p, 1, Len(G.E))
      [] t.t = "isolated" -> t.k >= 0
      [] t.t = "pendant" -> t.v \in Vertices(G) /\ t.w > 0
      [] t.t = "bridge" -> LET c == CompMap(G, Edges(G)) IN t.u \in Vertices(G) /\ t.v \in Vertices(G) /\ c[t.u] # c[t.v] /\ t.w > 0
      [] t.t = "subdivide" -> t.e \in Edges(G) /\ t.w > 0 /\ t.w < Wt(G, t.e)
      [] t.t \in {"scaleint", "scaleden", "scaleexp"} -> TRUE
Apply(G, t) ==
    CASE t.t = "rename" -> Rename(G, t.p)
      [] t.t = "reorder" -> Reorder(G, t.p, t.f)
      [] t.t = "isolated" -> AddIsolated(G, t.k)
      [] t.t = "pendant" -> AddPendant(G, t.v, t.w)
      [] t.t = "bridge" -> AddBridge(G, t.u, t.v, t.w)
      [] t.t = "subdivide" -> Subdivide(G, t.e, t.w)
      [] t.t = "scaleint" -> ScaleInt(G, t.k)
      [] t.t = "scaleden" -> ScaleDen(G, t.k)
      [] t.t = "scaleexp" -> ScaleExp(G, t.k)
NewOpt(o, t) == IF o = Unknown THEN Unknown ELSE IF t.t = "scaleint" THEN o * 2^t.k ELSE o

Base(s, G) == /\ gs' = [gs EXCEPT ![s] = G] /\ opts' = [opts EXCEPT ![s] = Unknown]
BaseFamily(s, G, f, a, b) == /\ IsFamily(G, f, a, b) /\ \A e \in Edges(G) : Wt(G, e) = Wt(G, 1)
                             /\ gs' = [gs EXCEPT ![s] = G] /\ opts' = [opts EXCEPT ![s] = Wt(G, 1) * FamilyOpt(f, a, b)]
Transform(s, t, H) == /\ Legal(gs[s], t) = TRUE
                      /\ H = Apply(gs[s], t)
                      /\ gs' = [gs EXCEPT ![s] = H] /\ opts' = [opts EXCEPT ![s] = NewOpt(@, t)]
Join(H) == /\ gs[1].den = gs[2].den /\ gs[1].exp = gs[2].exp /\ H = Union(gs[1], gs[2])
           /\ gs' = [gs EXCEPT ![1] = H]
           /\ opts' = [opts EXCEPT ![1] = IF opts[1] = Unknown \/ opts[2] = Unknown THEN Unknown ELSE opts[1] + opts[2]]
Observe(s, w, exact) == /\ exact /\ w >= 0 /\ opts[s] \in {Unknown, w}
                        /\ opts' = [opts EXCEPT ![s] = w] /\ UNCHANGED gs
=============================================================================
