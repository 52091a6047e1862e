------------------------------- MODULE Greens -------------------------------
(* Imaginary-time, imaginary-frequency and real-time response functions.
   Inverse temperatures and imaginary times are multiples of ln 2, real energies are
   integers, so that exponentials are powers of two; elsewhere phases are quarter turns.
   Values that are not integers are in units of 1/V. *)
EXTENDS Base
V == 10000

(* twice the trapezoid weight of point k of the grid x *)
Trap2(x, k) == (IF k < Len(x) THEN x[k + 1] - x[k] ELSE 0) + (IF k > 1 THEN x[k] - x[k - 1] ELSE 0)
Integral2(x, f(_)) == FoldLeft(LAMBDA acc, k : CAdd(CScale(Trap2(x, k), f(k)), acc), CZero, [k \in 1..Len(x) |-> k])

(* multiples of pi / beta not above m: odd for fermions, even for bosons *)
Matsubara(m, fermi) == SortSeq(SetToSeq({j \in -m..m : (j % 2 = 1) = fermi}), <)

(* a / (i w - x), units 1/V *)
Pole(a, w, x) == LET den == w * w + x * x IN <<RoundHalfUp(-x * a * V, den), RoundHalfUp(-w * a * V, den)>>
(* a 2^(-t x) / (1 +- 2^(-b x)), units 1/V *)
Boltz(a, t, b, x, fermi) ==
  LET y == Abs(x)
      num == IF x >= 0 THEN Pow(2, (b - t) * y) ELSE Pow(2, t * y)
      den == IF fermi THEN Pow(2, b * y) + 1 ELSE IF x >= 0 THEN Pow(2, b * y) - 1 ELSE 1 - Pow(2, b * y)
  IN RoundHalfUp(a * V * num, den)
(* 4 pi times G(i w) and G(tau) of the spectral function A on the grid x *)
FromSpectralFrq(x, A, w) == Integral2(x, LAMBDA k : Pole(A[k], w, x[k]))
FromSpectralTime(x, A, t, b, fermi) == -Integral2(x, LAMBDA k : <<Boltz(A[k], t, b, x[k], fermi), 0>>)[1]

(* free level e *)
FreeTau(e, b, t) == IF t > 0 THEN -Boltz(1, t, b, e, TRUE)
                    ELSE IF e >= 0 THEN RoundHalfUp(V * Pow(2, -e * t), 1 + Pow(2, b * e))
                            ELSE RoundHalfUp(V * Pow(2, (b + t) * (-e)), 1 + Pow(2, b * (-e)))
(* z / (p + i r) in units 1/V, z real *)
Quot(z, p, r) == LET den == p * p + r * r IN <<RoundHalfUp(z * p * V, den), RoundHalfUp(-z * r * V, den)>>
(* chi0 / (1 - i w / D - w^2 / (g D)); g = 0 stands for infinite g *)
Hydro(w, k, c, d0, d2, g) ==
  LET D == d0 * k * k + d2 * k * k * k * k
  IN IF g = 0 THEN Quot(c * D, D, -w) ELSE Quot(c * g * D, g * D - w * w, -w * g)
(* 4 pi times the Fourier integral of f over the grid x at time q pi / 2 *)
FourierBack(x, f, q) == Integral2(x, LAMBDA k : CMul(f[k], IPow(-x[k] * q)))
=============================================================================
