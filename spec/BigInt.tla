------------------------------- MODULE BigInt -------------------------------
(* Integers of any size: <<sign, d0, d1, ...>>, digits base 1000, little endian, no
   leading zeros, zero is <<0>>.  TLC's own integers have 32 bits.               *)
EXTENDS Integers, Sequences, SequencesExt
Base == 1000
RECURSIVE NatDigits(_), Trim(_)
NatDigits(n) == IF n = 0 THEN << >> ELSE <<n % Base>> \o NatDigits(n \div Base)
Trim(d) == IF d # << >> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Abs(n) == IF n < 0 THEN -n ELSE n
Big(n) == IF n = 0 THEN <<0>> ELSE <<IF n < 0 THEN -1 ELSE 1>> \o NatDigits(Abs(n))
Sgn(b) == b[1]
Mag(b) == Tail(b)
Mk(s, d) == LET t == Trim(d) IN IF t = << >> THEN <<0>> ELSE <<s>> \o t
WellFormed(b) == /\ Len(b) >= 1 /\ b[1] \in {-1, 0, 1} /\ (b[1] = 0 <=> Len(b) = 1)
                 /\ \A i \in 2..Len(b) : b[i] \in 0..Base-1
                 /\ Len(b) > 1 => b[Len(b)] # 0
Dg(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
\* magnitudes
CmpM(c, d) ==
    IF Len(c) # Len(d) THEN (IF Len(c) < Len(d) THEN -1 ELSE 1)
    ELSE LET diff == {i \in DOMAIN c : c[i] # d[i]} IN
         IF diff = {} THEN 0
         ELSE LET k == CHOOSE i \in diff : \A j \in diff : j <= i IN IF c[k] < d[k] THEN -1 ELSE 1
\* carry a sequence of digit sums (each below 2*10^9) into digits
Carry(s) ==
    LET f == FoldLeft(LAMBDA acc, x : LET t == x + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>, << << >>, 0 >>, s)
    IN Trim(f[1] \o NatDigits(f[2]))
AddM(c, d) == Carry([i \in 1..Max2(Len(c), Len(d)) |-> Dg(c, i) + Dg(d, i)])
SubM(c, d) == \* c >= d
    LET f == FoldLeft(LAMBDA acc, i : LET t == Dg(c, i) - Dg(d, i) - acc[2] IN
                          IF t < 0 THEN <<Append(acc[1], t + Base), 1>> ELSE <<Append(acc[1], t), 0>>,
                      << << >>, 0 >>, [i \in 1..Len(c) |-> i])
    IN Trim(f[1])
MulM(c, d) ==
    IF c = << >> \/ d = << >> THEN << >>
    ELSE Carry([k \in 1..Len(c) + Len(d) - 1 |->
            LET lo == Max2(1, k + 1 - Len(d)) hi == IF k < Len(c) THEN k ELSE Len(c)
            IN FoldLeft(LAMBDA acc, i : acc + c[i] * d[k + 1 - i], 0, [i \in 1..Max2(0, hi - lo + 1) |-> lo + i - 1])])
\* largest q in 0..Base-1 with q*d <= c
RECURSIVE QDigit(_, _, _, _)
QDigit(c, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF CmpM(MulM(d, NatDigits(mid)), c) <= 0 THEN QDigit(c, d, mid, hi) ELSE QDigit(c, d, lo, mid - 1)
ModM(c, d) == FoldLeft(LAMBDA r, x : LET t == Trim(<<x>> \o r) IN
                            IF CmpM(t, d) < 0 THEN t ELSE SubM(t, MulM(d, NatDigits(QDigit(t, d, 0, Base - 1)))),
                       << >>, Reverse(c))
\* signed
NegB(a) == <<-Sgn(a)>> \o Mag(a)
AbsB(a) == IF Sgn(a) < 0 THEN NegB(a) ELSE a
AddB(a, b) ==
    IF Sgn(a) = 0 THEN b ELSE IF Sgn(b) = 0 THEN a
    ELSE IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), AddM(Mag(a), Mag(b)))
    ELSE LET c == CmpM(Mag(a), Mag(b)) IN
         IF c = 0 THEN <<0>> ELSE IF c > 0 THEN Mk(Sgn(a), SubM(Mag(a), Mag(b))) ELSE Mk(Sgn(b), SubM(Mag(b), Mag(a)))
MulB(a, b) == IF Sgn(a) = 0 \/ Sgn(b) = 0 THEN <<0>> ELSE Mk(Sgn(a) * Sgn(b), MulM(Mag(a), Mag(b)))
\* the representative of a in 0..p-1, p > 0
ModB(a, p) == LET r == Mk(1, ModM(Mag(a), Mag(p))) IN IF Sgn(a) >= 0 \/ r = <<0>> THEN r ELSE Mk(1, SubM(Mag(p), Mag(r)))
CmpB(a, b) == LET d == AddB(a, NegB(b)) IN Sgn(d)
RECURSIVE GcdB(_, _)
GcdB(a, b) == IF Sgn(b) = 0 THEN AbsB(a) ELSE GcdB(AbsB(b), ModB(AbsB(a), AbsB(b)))
Divides(d, a) == Sgn(d) # 0 /\ Sgn(ModB(a, AbsB(d))) = 0
One == <<1, 1>>
IsSmall(a) == Len(a) <= 4 \/ (Len(a) = 5 /\ a[5] < 2)       \* below 2*10^9
Small(a) == Sgn(a) * FoldLeft(LAMBDA acc, x : acc * Base + x, 0, Reverse(Mag(a)))
\* a^e mod p, e >= 0
RECURSIVE Bits(_)
HalfM(d) == LET f == FoldLeft(LAMBDA acc, x : LET t == acc[2] * Base + x IN <<Append(acc[1], t \div 2), t % 2>>, << << >>, 0 >>, Reverse(d)) IN Trim(Reverse(f[1]))
Bits(d) == IF d = << >> THEN << >> ELSE Append(Bits(HalfM(d)), d[1] % 2)     \* most significant first
PowB(a, e, p) == FoldLeft(LAMBDA r, bit : LET s == ModB(MulB(r, r), p) IN IF bit = 1 THEN ModB(MulB(s, a), p) ELSE s, ModB(One, p), Bits(Mag(e)))
=============================================================================
