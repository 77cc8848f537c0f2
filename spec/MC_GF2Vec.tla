------------------------------ MODULE MC_GF2Vec ------------------------------
(* The sparse representation (sorted lists, merge-style addition and product) refines
   GF2Vec: all reachable states of a few objects over a small dimension.            *)
EXTENDS GF2Vec, SequencesExt
CONSTANTS NR, Dim
Regs == 1..NR
D == 0..Dim - 1
Sorted(S) == SetToSortSeq(S, <)
Sets == {Sorted(S) : S \in SUBSET D}
VARIABLES reg, sp          \* dense and sparse
vars == <<reg, sp>>

RECURSIVE Merge(_, _), Prod(_, _)
Merge(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
               ELSE IF Head(a) > Head(b) THEN <<Head(b)>> \o Merge(a, Tail(b))
               ELSE IF Head(a) < Head(b) THEN <<Head(a)>> \o Merge(Tail(a), b)
               ELSE Merge(Tail(a), Tail(b))
Prod(a, b) == IF a = << >> \/ b = << >> THEN 0
              ELSE IF Head(a) > Head(b) THEN Prod(a, Tail(b))
              ELSE IF Head(a) < Head(b) THEN Prod(Tail(a), b)
              ELSE (1 + Prod(Tail(a), Tail(b))) % 2
SpReg(o) ==
    CASE o.op \in {"new", "clear"} -> [sp EXCEPT ![o.r] = << >>]
      [] o.op = "unit" -> [sp EXCEPT ![o.r] = <<o.i>>]
      [] o.op = "set" -> [sp EXCEPT ![o.r] = o.is]
      [] o.op \in {"copy", "asg", "ser", "move", "masg"} -> [sp EXCEPT ![o.r] = sp[o.s]]
      [] o.op = "plus" -> [sp EXCEPT ![o.r] = Merge(sp[o.s], sp[o.t])]
      [] o.op = "pluseq" -> [sp EXCEPT ![o.r] = Merge(sp[o.r], sp[o.s])]
      [] o.op = "append" -> [sp EXCEPT ![o.r] = Append(@, o.i)]
      [] OTHER -> sp
SpRes(o) == CASE o.op = "dot" -> Prod(sp[o.r], sp[o.s])
              [] o.op = "dots" -> Prod(sp[o.r], o.is)
              [] OTHER -> 0
Init == reg = [r \in Regs |-> {}] /\ sp = [r \in Regs |-> << >>]
Next == \E o \in AllOps(Regs, D, Sets) :
    /\ OpEnabled(reg, o)
    /\ Assert(SpRes(o) = OpRes(reg, o), <<"product", o, sp>>)
    /\ reg' = OpReg(reg, o)
    \* a moved-from object is reset so that the sparse state does not remember the past
    /\ sp' = [r \in Regs |-> IF reg'[r] = Moved THEN << >> ELSE SpReg(o)[r]]
Spec == Init /\ [][Next]_vars
CanonicalForm == \A r \in Regs : reg[r] = Moved \/ Canonical(sp[r], reg[r])
\* algebra the algorithms rely on
Algebra == \A r, s \in Regs : reg[r] # Moved /\ reg[s] # Moved =>
    /\ Merge(sp[r], sp[s]) = Merge(sp[s], sp[r])
    /\ Merge(Merge(sp[r], sp[s]), sp[s]) = sp[r]
    /\ Prod(sp[r], sp[s]) = Prod(sp[s], sp[r])
=============================================================================
