------------------------------- MODULE Base -------------------------------
(* Small arithmetic, sequence and matrix vocabulary shared by every module. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k

(* floor division and remainder for a divisor of either sign *)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
(* nearest integer to a/b, halves rounded up *)
RoundHalfUp(a, b) == FloorDiv(2 * a + b, 2 * b)

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
ProdSeq(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
Range1(n) == 1..n
Rng(s) == {s[i] : i \in 1..Len(s)}
IsPermSeq(p, n) == Len(p) = n /\ Rng(p) = 0..(n - 1)
(* all sequences of integers in matrix a have length c, and there are r of them *)
HasShape(a, r, c) == Len(a) = r /\ \A i \in 1..r : Len(a[i]) = c
(* failing clause names of a sequence of <<name, holds>> pairs *)
Failing(cs) == {cs[i][1] : i \in {j \in 1..Len(cs) : ~cs[j][2]}}

(* complex integers <<re, im>> *)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
CZero == <<0, 0>>
CSum(S, f(_)) == FoldSet(LAMBDA x, acc : CAdd(f(x), acc), CZero, S)
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
=============================================================================
