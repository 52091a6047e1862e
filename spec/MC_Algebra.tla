----------------------------- MODULE MC_Algebra -----------------------------
(* Laws of LinAlg and Thermal on all small vectors, matrices and spectra. *)
EXTENDS Thermal
CONSTANTS Ent, MaxE
VARIABLES kind, a, b, M, e, k
vars == <<kind, a, b, M, e, k>>
V2 == {<<x, y>> : x \in Ent, y \in Ent}
Row(x, y) == <<x, y>>
None == <<>>
EntV == {<<0, 0>>, <<0, -1>>, <<2, 1>>}
EntBig == EntV \cup {<<1, 0>>, <<-1, 3>>}
Spectra == UNION {[1..d -> 0..MaxE] : d \in 1..3}
Init == \/ /\ kind = "alg" /\ a \in V2 /\ b \in V2
           /\ M \in {<<Row(w, x), Row(y, z)>> : w \in Ent, x \in Ent, y \in Ent, z \in {CZero, <<1, 1>>}}
           /\ e = None /\ k \in 0..3
        \/ /\ kind = "heat" /\ e \in Spectra /\ k \in -1..3 /\ a = None /\ b = None /\ M = None
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

W == << <<<<1, 0>>, <<1, 0>>>>, <<<<0, 1>>, <<0, -1>>>> >>       \* columns orthogonal, squared length 2
Adjoint == CInner(a, MatVec(M, b)) = CInner(MatVec(Dagger(M), a), b)
Conj == CInner(a, b) = CConj(CInner(b, a))
Product == Dagger(MatMul(M, W)) = MatMul(Dagger(W), Dagger(M))
RealExp == IsHermitian(M) => Expect(M, a)[2] = 0
Schwarz == LET z == CInner(a, b) IN z[1] * z[1] + z[2] * z[2] <= NormSq(a) * NormSq(b)
(* evolution: identity at zero, norm kept, steps compose, periodic for integer energies *)
Ev(m, v) == Evolved(W, <<1, 3>>, m, v)
EvZero == Ev(0, a) = <<CScale(2, a[1]), CScale(2, a[2])>>
EvNorm == NormSq(Ev(k, a)) = 4 * NormSq(a)
EvStep == Ev(1, Ev(k, a)) = <<CScale(2, Ev(k + 1, a)[1]), CScale(2, Ev(k + 1, a)[2])>>
EvPeriod == Ev(k + 4, a) = Ev(k, a)

m == 12
Sq(x) == [j \in 1..Len(e) |-> e[j] * e[j]]
Bounded == LET z == Z2(m, k, e, MinE(e))
               x == Num2(m, k, e, e, MinE(e))
           IN z > 0 /\ x >= MinE(e) * z /\ x <= Max({e[j] : j \in 1..Len(e)}) * z
Infinite == k = 0 => Z2(m, k, e, MinE(e)) = Len(e) * Pow(2, m)
Ground == k = -1 => Num2(m, k, e, e, MinE(e)) = MinE(e) * Z2(m, k, e, MinE(e))
Shift == LET f == [j \in 1..Len(e) |-> e[j] + 5] IN Weights(m, k, f, MinE(f)) = Weights(m, k, e, MinE(e))
Additive == \A c \in 1..(Len(e) - 1) : Z2(m, k, SubSeq(e, 1, c), MinE(e)) + Z2(m, k, SubSeq(e, c + 1, Len(e)), MinE(e)) = Z2(m, k, e, MinE(e))
Laws == IF kind = "alg" THEN Adjoint /\ Conj /\ Product /\ RealExp /\ Schwarz /\ EvZero /\ EvNorm /\ EvStep /\ EvPeriod
        ELSE Bounded /\ Infinite /\ Ground /\ Shift /\ Additive
=============================================================================
