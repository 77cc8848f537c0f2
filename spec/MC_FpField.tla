------------------------------ MODULE MC_FpField ------------------------------
(* The algorithms of fp.hpp and spvecfp.hpp as transitions, over a small range:
   - ext_gcd for every pair in -R..R, with its loop invariant and the magnitude
     bound that keeps the coefficients inside the argument type;
   - trial division against the definition for every n in 2..P;
   - BigInt against TLC's own integers;
   - sparse F_p vectors against dense ones, p in Ps, Dim coordinates.            *)
EXTENDS FpField, TLC
CONSTANTS R, P, Ps, Dim
VARIABLES ph, a, b, i, A, X, Y
vars == <<ph, a, b, i, A, X, Y>>
AA == Abs(a)
BB == Abs(b)
Sw == BB > AA
Z == [k \in 0..1 |-> 0]
Init == /\ ph = "loop" /\ a \in -R..R /\ b \in -R..R /\ ~(a = 0 /\ b = 0) /\ i = 0
        /\ A = (0 :> (IF Abs(b) > Abs(a) THEN Abs(b) ELSE Abs(a)) @@ 1 :> (IF Abs(b) > Abs(a) THEN Abs(a) ELSE Abs(b)))
        /\ X = (0 :> 1 @@ 1 :> 0) /\ Y = (0 :> 0 @@ 1 :> 1)
Loop == /\ ph = "loop" /\ a # 0 /\ b # 0
        /\ LET q == A[i] \div A[1-i] IN
           IF A[i] % A[1-i] = 0 THEN ph' = "done" /\ UNCHANGED <<a, b, i, A, X, Y>>
           ELSE /\ A' = [A EXCEPT ![i] = A[i] % A[1-i]] /\ X' = [X EXCEPT ![i] = X[i] - q * X[1-i]]
                /\ Y' = [Y EXCEPT ![i] = Y[i] - q * Y[1-i]] /\ i' = 1 - i /\ UNCHANGED <<ph, a, b>>
Short == ph = "loop" /\ (a = 0 \/ b = 0) /\ ph' = "done" /\ UNCHANGED <<a, b, i, A, X, Y>>
Spec == Init /\ [][Loop \/ Short]_vars /\ WF_vars(Loop \/ Short)
Bez == \A k \in 0..1 : A[k] = X[k] * (IF Sw THEN BB ELSE AA) + Y[k] * (IF Sw THEN AA ELSE BB)
SgnI(z) == IF z < 0 THEN -1 ELSE 1
Res == IF a = 0 THEN <<BB, 0, SgnI(b)>> ELSE IF b = 0 THEN <<AA, SgnI(a), 0>>
       ELSE IF Sw THEN <<A[1-i], Y[1-i] * SgnI(a), X[1-i] * SgnI(b)>> ELSE <<A[1-i], X[1-i] * SgnI(a), Y[1-i] * SgnI(b)>>
GcdRight == ph = "done" => ExtGcdOK(Big(a), Big(b), Big(Res[1]), Big(Res[2]), Big(Res[3]))
NoOverflow == \A k \in 0..1 : Abs(X[k]) <= Max2(AA, BB) /\ Abs(Y[k]) <= Max2(AA, BB)
Terminates == <>(ph = "done")

\* ---- evaluated once
RECURSIVE Trial(_, _)
Trial(n, t) == IF n % 2 = 0 THEN n = 2 ELSE IF t * t > n /\ (t - 1) * (t - 1) > n THEN TRUE ELSE IF n % t = 0 /\ t < n THEN FALSE ELSE Trial(n, t + 1)
ASSUME \A n \in 2..P : Trial(n, 2) = IsPrimeSmall(n) /\ IsPrimeTrial(n) = IsPrimeSmall(n)
Sample == {-1000001, -1000000, -999999, -12345, -1001, -1000, -999, -7, -1, 0, 1, 2, 3, 999, 1000, 1001, 31623, 46340}
ASSUME \A x \in Sample, y \in Sample :
    /\ WellFormed(Big(x)) /\ AddB(Big(x), Big(y)) = Big(x + y) /\ CmpB(Big(x), Big(y)) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
    /\ (Abs(x) <= 2000 \/ Abs(y) <= 2000) => MulB(Big(x), Big(y)) = Big(x * y)
    /\ y > 0 => ModB(Big(x), Big(y)) = Big(x % y)
    /\ Small(Big(x)) = x
ASSUME \A x \in 0..12, e \in 0..9, p \in 2..13 :
    PowB(Big(x), Big(e), Big(p)) = Big(FoldLeft(LAMBDA acc, k : (acc * x) % p, 1 % p, [k \in 1..e |-> k]))
ASSUME LucasOK(Big(1000003), Big(2), <<Big(2), Big(3), Big(166667)>>, <<Big(2), Big(3), Big(166667)>>)
\* ---- sparse vectors: merge addition and scaling on lists
RECURSIVE MergeP(_, _, _), ScaleP(_, _, _)
MergeP(q, r, p) == IF q = << >> THEN r ELSE IF r = << >> THEN q
    ELSE IF Head(q)[1] > Head(r)[1] THEN <<Head(r)>> \o MergeP(q, Tail(r), p)
    ELSE IF Head(q)[1] < Head(r)[1] THEN <<Head(q)>> \o MergeP(Tail(q), r, p)
    ELSE LET s == (Head(q)[2] + Head(r)[2]) % p IN (IF s = 0 THEN << >> ELSE << <<Head(q)[1], s>> >>) \o MergeP(Tail(q), Tail(r), p)
ScaleP(q, k, p) == IF q = << >> THEN << >> ELSE LET s == (Head(q)[2] * (k % p)) % p IN (IF s = 0 THEN << >> ELSE << <<Head(q)[1], s>> >>) \o ScaleP(Tail(q), k, p)
Lists(p) == { SelectSeq([j \in 1..Dim |-> <<j, f[j]>>], LAMBDA e : e[2] # 0) : f \in [1..Dim -> 0..p-1] }
Dense(q) == { <<q[k][1], Big(q[k][2])>> : k \in DOMAIN q }
BigList(q) == [k \in DOMAIN q |-> <<q[k][1], Big(q[k][2])>>]
ASSUME \A p \in Ps : \A q \in Lists(p), r \in Lists(p) :
    /\ VCanonical(BigList(MergeP(q, r, p)), VAdd(Dense(q), Dense(r), Big(p)), Big(p))
    /\ \A k \in -p-1..p+1 : VCanonical(BigList(ScaleP(q, k, p)), VScale(Dense(q), Big(k), Big(p)), Big(p))
=============================================================================
