------------------------------ MODULE FpField ------------------------------
(* What fp, primes and SpVecFP promise.  Numbers are BigInt values. *)
EXTENDS BigInt, FiniteSets

ExtGcdOK(a, b, g, x, y) ==
    /\ Sgn(g) = 1
    /\ Divides(g, a) /\ Divides(g, b)
    /\ AddB(MulB(a, x), MulB(b, y)) = g       \* so every common divisor divides g
InverseOK(a, p, threw, r) ==
    IF GcdB(a, p) = One THEN ~threw /\ ModB(MulB(a, r), p) = ModB(One, p) ELSE threw

\* small numbers: the definition
IsPrimeSmall(n) == n >= 2 /\ \A d \in 2..n : d * d > n \/ n % d # 0
TrialUpTo(n, k) == \A d \in 1..k : (2*d + 1) * (2*d + 1) > n \/ n % (2*d + 1) # 0
IsPrimeTrial(n) == n >= 2 /\ (n = 2 \/ (n % 2 = 1 /\ TrialUpTo(n, IF n < 10000 THEN 50 ELSE IF n < 1000000 THEN 500 ELSE 22400)))    \* n < 2*10^9
\* larger ones by certificate: a factor, or g and the prime factors qs of n-1 (Lucas)
CompositeBy(n, f) == CmpB(f, One) > 0 /\ CmpB(f, n) < 0 /\ Divides(f, n)
LucasOK(n, g, qs, n1q) ==
    LET n1 == AddB(n, <<-1, 1>>) IN
    /\ qs # << >> /\ PowB(g, n1, n) = One
    \* qs are prime and n-1 is a product of powers of them
    /\ \A i \in DOMAIN qs : IsPrimeTrial(Small(qs[i]))
    /\ n1 = FoldLeft(LAMBDA acc, q : MulB(acc, q), One, n1q) /\ \A i \in DOMAIN n1q : \E j \in DOMAIN qs : qs[j] = n1q[i]
    /\ \A i \in DOMAIN qs : \E k \in DOMAIN n1q : n1q[k] = qs[i] /\
          PowB(g, FoldLeft(LAMBDA acc, j : IF j = k THEN acc ELSE MulB(acc, n1q[j]), One, [j \in DOMAIN n1q |-> j]), n) # One

(* ---- vectors over F_p: functions from a finite set of indices to 1..p-1 ---- *)
Moved == { <<-1, <<0>>>> }        \* no vector has this entry
Supp(v) == {e[1] : e \in v}
At(v, i) == IF \E e \in v : e[1] = i THEN (CHOOSE e \in v : e[1] = i)[2] ELSE <<0>>
Clean(v) == {e \in v : e[2] # <<0>>}
VAdd(v, w, p) == Clean({ <<i, ModB(AddB(At(v, i), At(w, i)), p)>> : i \in Supp(v) \cup Supp(w) })
VScale(v, a, p) == Clean({ <<e[1], ModB(MulB(e[2], a), p)>> : e \in v })
VDot(v, w, p) == FoldLeft(LAMBDA acc, i : ModB(AddB(acc, MulB(At(v, i), At(w, i))), p), <<0>>, SetToSeq(Supp(v) \cap Supp(w)))
\* the listed entries are the canonical form of the vector
VCanonical(q, v, p) ==
    /\ \A k \in 1..Len(q) - 1 : q[k][1] < q[k+1][1]
    /\ {q[k] : k \in DOMAIN q} = v
    /\ \A k \in DOMAIN q : Sgn(q[k][2]) = 1 /\ CmpB(q[k][2], p) < 0

\* an object: [p, v], or moved from
Operands(o) ==
    CASE o.op \in {"copy", "move", "asg", "masg", "ser"} -> {o.s}
      [] o.op = "scale" -> {o.s}
      [] o.op = "plus" -> {o.s, o.t}
      [] o.op \in {"pluseq", "dot"} -> {o.r, o.s}
      [] o.op = "scaleeq" -> {o.r}
      [] OTHER -> {}
OpEnabled(reg, o) ==
    /\ \A x \in Operands(o) : reg[x].v # Moved
    /\ o.op \in {"move", "masg"} => o.r # o.s
    /\ o.op \in {"plus"} => reg[o.s].p = reg[o.t].p
    /\ o.op \in {"pluseq", "dot"} => reg[o.r].p = reg[o.s].p
    /\ o.op \in {"unit", "clear"} => reg[o.r].p # <<0>>
OpReg(reg, o) ==
    CASE o.op = "new" -> [reg EXCEPT ![o.r] = [p |-> o.p, v |-> {}]]
      [] o.op = "newdef" -> [reg EXCEPT ![o.r] = [p |-> Big(3), v |-> {}]]
      [] o.op = "unit" -> [reg EXCEPT ![o.r].v = { <<o.i, One>> }]
      [] o.op \in {"copy", "asg", "ser"} -> [reg EXCEPT ![o.r] = reg[o.s]]
      [] o.op \in {"move", "masg"} -> [reg EXCEPT ![o.r] = reg[o.s], ![o.s] = [p |-> <<0>>, v |-> Moved]]
      [] o.op = "plus" -> [reg EXCEPT ![o.r] = [p |-> reg[o.s].p, v |-> VAdd(reg[o.s].v, reg[o.t].v, reg[o.s].p)]]
      [] o.op = "pluseq" -> [reg EXCEPT ![o.r].v = VAdd(reg[o.r].v, reg[o.s].v, reg[o.r].p)]
      [] o.op = "scale" -> [reg EXCEPT ![o.r] = [p |-> reg[o.s].p, v |-> VScale(reg[o.s].v, o.a, reg[o.s].p)]]
      [] o.op = "scaleeq" -> [reg EXCEPT ![o.r].v = VScale(reg[o.r].v, o.a, reg[o.r].p)]
      [] o.op = "clear" -> [reg EXCEPT ![o.r].v = {}]
      [] OTHER -> reg
OpRes(reg, o) == IF o.op = "dot" THEN VDot(reg[o.r].v, reg[o.s].v, reg[o.r].p) ELSE <<0>>
=============================================================================
