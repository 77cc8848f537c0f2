------------------------------- MODULE Headers -------------------------------
(* Programs made of headers.  A header needs names, gives names, and defines external symbols.
   A unit is a sequence of headers; it compiles when each header finds the names it needs among those
   given before it or by itself.  A program is a sequence of units; it links when they all compile and
   no two of them define the same external symbol.  A header is guarded: a second inclusion does nothing. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE CompilesFrom(_, _, _, _)
CompilesFrom(H, u, i, have) ==
    IF i > Len(u) THEN TRUE
    ELSE /\ H[u[i]].needs \subseteq have \cup H[u[i]].gives
         /\ CompilesFrom(H, u, i + 1, have \cup H[u[i]].gives)
Compiles(H, u) == CompilesFrom(H, u, 1, {})
Symbols(H, u) == UNION {H[u[i]].defs : i \in DOMAIN u}
DisjointSymbols(syms) == \A i, j \in DOMAIN syms : i < j => syms[i] \cap syms[j] = {}
Links(H, p) == /\ \A i \in DOMAIN p : Compiles(H, p[i])
               /\ DisjointSymbols([i \in DOMAIN p |-> Symbols(H, p[i])])
\* what the check observes of every header
SelfContained(H) == \A h \in DOMAIN H : Compiles(H, <<h>>) /\ Links(H, <<<<h>>, <<h>>>>)
=============================================================================
