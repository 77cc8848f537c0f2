------------------------------- MODULE GF2Vec -------------------------------
(* Objects that hold GF(2) vectors, in the dense view: an object is the set of its
   coordinates equal to one, or Moved (moved from: valid, contents unspecified, until
   it is assigned or cleared).  Every operation of SpVecGF2 is one action.          *)
EXTENDS Integers, Sequences, FiniteSets

Moved == {-1}
Xor(A, B) == (A \ B) \cup (B \ A)
Parity(A) == Cardinality(A) % 2
SetOf(q) == {q[i] : i \in DOMAIN q}
Max0(A) == IF A = {} THEN -1 ELSE CHOOSE x \in A : \A y \in A : y <= x

\* operands of an operation o on the objects reg: all must have specified contents
Operands(o) ==
    CASE o.op \in {"copy", "move", "asg", "masg", "ser", "dots1"} -> {o.s}
      [] o.op = "plus" -> {o.s, o.t}
      [] o.op \in {"pluseq", "dot"} -> {o.r, o.s}
      [] o.op \in {"dots", "append", "obs"} -> {o.r}
      [] OTHER -> {}
OpEnabled(reg, o) ==
    /\ \A x \in Operands(o) : reg[x] # Moved
    /\ o.op = "append" => o.i > Max0(reg[o.r])
    /\ o.op \in {"move", "masg"} => o.r # o.s

\* the objects after o
OpReg(reg, o) ==
    CASE o.op = "new" -> [reg EXCEPT ![o.r] = {}]
      [] o.op = "unit" -> [reg EXCEPT ![o.r] = {o.i}]
      [] o.op = "set" -> [reg EXCEPT ![o.r] = SetOf(o.is)]
      [] o.op \in {"copy", "asg", "ser"} -> [reg EXCEPT ![o.r] = reg[o.s]]
      [] o.op \in {"move", "masg"} -> [reg EXCEPT ![o.r] = reg[o.s], ![o.s] = Moved]
      [] o.op = "plus" -> [reg EXCEPT ![o.r] = Xor(reg[o.s], reg[o.t])]
      [] o.op = "pluseq" -> [reg EXCEPT ![o.r] = Xor(reg[o.r], reg[o.s])]
      [] o.op = "append" -> [reg EXCEPT ![o.r] = reg[o.r] \cup {o.i}]
      [] o.op = "clear" -> [reg EXCEPT ![o.r] = {}]
      [] OTHER -> reg           \* dot, dots: observers
\* what o returns
OpRes(reg, o) ==
    CASE o.op = "dot" -> Parity(reg[o.r] \cap reg[o.s])
      [] o.op = "dots" -> Parity(reg[o.r] \cap SetOf(o.is))
      [] OTHER -> 0

\* a list of coordinates is the canonical form of the dense vector A
Increasing(q) == \A i \in 1..Len(q) - 1 : q[i] < q[i+1]
Canonical(q, A) == Increasing(q) /\ SetOf(q) = A

AllOps(Regs, D, sets) ==
    [op : {"new", "clear"}, r : Regs]
    \cup [op : {"unit", "append"}, r : Regs, i : D]
    \cup [op : {"set", "dots"}, r : Regs, is : sets]
    \cup [op : {"copy", "move", "asg", "masg", "ser", "pluseq", "dot"}, r : Regs, s : Regs]
    \cup [op : {"plus"}, r : Regs, s : Regs, t : Regs]
=============================================================================
