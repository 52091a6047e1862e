------------------------------ MODULE FermiGas ------------------------------
(* Non-interacting lattice fermions on N sites (per direction) with periodic boundaries,
   N in {2, 3, 4, 6}, so that 2 cos(2 pi a / N) and with it every energy is an integer.
   Inverse temperature b ln 2 (b = -1: zero temperature), chemical potential m2 / 2,
   times q pi / 2.  Occupations, Green's functions and correlators are in units of 1/U. *)
EXTENDS Base

U == 20000
Mul(a, b) == RoundHalfUp(a * b, U)
MulC(z, c, d) == <<RoundHalfUp(z[1] * c, d), RoundHalfUp(z[2] * c, d)>>      \* z c / d

(* 2 cos(2 pi a / N) *)
Cos2(N, a) == LET r == (12 * a) % (12 * N)          \* angle in units 2 pi / (12 N)
                  c == r \div N                      \* twelfth turns: exact for N | 12
              IN CASE c = 0 -> 2 [] c \in {2, 10} -> 1 [] c \in {3, 9} -> 0 [] c \in {4, 8} -> -1 [] c = 6 -> -2
Ks(N, d) == IF d = 1 THEN {<<a, 0>> : a \in 0..(N - 1)} ELSE (0..(N - 1)) \X (0..(N - 1))
Energy(N, d, k) == IF d = 1 THEN -Cos2(N, k[1]) ELSE -(Cos2(N, k[1]) + Cos2(N, k[2]))

(* occupation of a level at 2 (e - mu) = x2; for finite b the product b x2 is even *)
Occ(b, x2) ==
  IF b = -1 THEN (IF x2 <= 0 THEN U ELSE 0)
  ELSE LET n == (b * x2) \div 2
       IN IF n > 16 THEN 0 ELSE IF n < -16 THEN U
          ELSE IF n >= 0 THEN RoundHalfUp(U, Pow(2, n) + 1)
          ELSE U - RoundHalfUp(U, Pow(2, -n) + 1)
(* d occupation / d mu = beta f (1 - f) *)
OccMu(b, x2) == RoundHalfUp(b * 253 * Mul(Occ(b, x2), U - Occ(b, x2)), 365)
OccBeta(b, x2) == RoundHalfUp(-x2 * Mul(Occ(b, x2), U - Occ(b, x2)), 2)

(* Green's functions of one level, 2(e - mu) = x2 even, at time q pi / 2 *)
Phase(x2, q) == IPow(-(x2 \div 2) * q)
Gfn(type, b, x2, q) ==
  LET f == Occ(b, x2)
      great == CMul(Phase(x2, q), <<0, -(U - f)>>)
      less == CMul(Phase(x2, q), <<0, f>>)
  IN CASE type = "greater" -> great
       [] type = "lesser" -> less
       [] type = "retarded" -> IF q >= 0 THEN CMul(Phase(x2, q), <<0, -U>>) ELSE CZero
       [] type = "advanced" -> IF q <= 0 THEN CMul(Phase(x2, q), <<0, U>>) ELSE CZero
       [] type = "time-ordered" -> IF q > 0 THEN great ELSE less      \* q # 0
(* derivative with respect to mu (b # -1) *)
GfnMu(type, b, x2, q) ==
  LET g == Gfn(type, b, x2, q)
      it == MulC(CMul(<<0, q>>, g), 355, 226)
  IN IF type \in {"greater", "lesser"} THEN CAdd(it, CMul(Phase(x2, q), <<0, OccMu(b, x2)>>)) ELSE it

(* 1/N sum_k exp(i k r) g(e_k): g depends on k only through the energy, which is even in
   every component, so the phases become cosines *)
Fourier(N, d, r, g(_)) ==
  LET K == Ks(N, d)
      es == TLCEval({Energy(N, d, k) : k \in K})
      w == TLCEval([x \in es |-> SumOver({k \in K : Energy(N, d, k) = x},
              LAMBDA k : IF d = 1 THEN 2 * Cos2(N, k[1] * r[1]) ELSE Cos2(N, k[1] * r[1]) * Cos2(N, k[2] * r[2]))])
      s == FoldSet(LAMBDA x, acc : CAdd(CScale(w[x], g(x)), acc), CZero, es)
      n == 4 * Cardinality(K)
  IN <<RoundHalfUp(s[1], n), RoundHalfUp(s[2], n)>>
RealGfn(type, N, d, r, b, m2, q) == Fourier(N, d, r, LAMBDA x : Gfn(type, b, 2 * x - m2, q))
RealGfnMu(type, N, d, r, b, m2, q) == Fourier(N, d, r, LAMBDA x : GfnMu(type, b, 2 * x - m2, q))
(* <c+_r c_0>, real *)
Bond(N, d, r, b, m2) == Fourier(N, d, r, LAMBDA x : <<Occ(b, 2 * x - m2), 0>>)[1]
Density(N, d, b, m2) == Bond(N, d, <<0, 0>>, b, m2)
Compress(N, d, b, m2) == Fourier(N, d, <<0, 0>>, LAMBDA x : <<OccMu(b, 2 * x - m2), 0>>)[1]

(* connected density correlator: Wick *)
Same(r) == r = <<0, 0>>
Corr(N, d, r, b, m2) == LET g == Bond(N, d, r, b, m2) IN (IF Same(r) THEN g ELSE 0) - Mul(g, g)
(* two independent species, sigma = 1 - 2 n:  singles = (1 - sigma_up sigma_dn) / 2 *)
Sig(N, d, b, m2) == U - 2 * Density(N, d, b, m2)
SigSig(N, d, r, b, m2) == LET s == Sig(N, d, b, m2) IN Mul(s, s) + 4 * Corr(N, d, r, b, m2)
Singles(N, d, b, mu, md) == RoundHalfUp(U - Mul(Sig(N, d, b, mu), Sig(N, d, b, md)), 2)
SinglesCorr(N, d, r, b, mu, md) ==
  LET s == Mul(Sig(N, d, b, mu), Sig(N, d, b, md))
  IN RoundHalfUp(Mul(SigSig(N, d, r, b, mu), SigSig(N, d, r, b, md)) - Mul(s, s), 4)
Doubles(N, d, b, mu, md) == Mul(Density(N, d, b, mu), Density(N, d, b, md))
NN(N, d, r, b, m2) == LET n == Density(N, d, b, m2) IN Mul(n, n) + Corr(N, d, r, b, m2)
DoublesCorr(N, d, r, b, mu, md) ==
  LET x == Doubles(N, d, b, mu, md) IN Mul(NN(N, d, r, b, mu), NN(N, d, r, b, md)) - Mul(x, x)
SzCorr(N, d, r, b, mu, md) == Corr(N, d, r, b, mu) + Corr(N, d, r, b, md)
SxCorr(N, d, r, b, mu, md) ==
  LET gu == Bond(N, d, r, b, mu)
      gd == Bond(N, d, r, b, md)
  IN (IF Same(r) THEN gu + gd ELSE 0) - 2 * Mul(gu, gd)

(* density response at wave vector 2 pi q / N, frequency w2 / 2, width h2 / 2 (in units 1/U);
   at zero frequency and width degenerate levels contribute -df/dmu *)
Chi(N, d, q, b, m2, w2, h2) ==
  LET K == Ks(N, d)
      term(k) ==
        LET x == Energy(N, d, k)
            y == Energy(N, d, <<(k[1] + q[1]) % N, IF d = 1 THEN 0 ELSE (k[2] + q[2]) % N>>)
            den == w2 + 2 * (x - y)
            num == Occ(b, 2 * x - m2) - Occ(b, 2 * y - m2)
        IN IF den = 0 /\ h2 = 0 THEN <<-OccMu(b, 2 * x - m2), 0>>
           ELSE <<RoundHalfUp(2 * num * den, den * den + h2 * h2), RoundHalfUp(-2 * num * h2, den * den + h2 * h2)>>
      s == CSum(K, term)
  IN <<RoundHalfUp(s[1], Cardinality(K)), RoundHalfUp(s[2], Cardinality(K))>>
(* terms at finite frequency and vanishing width may be singular *)
Singular(N, d, q, w2, h2) == h2 = 0 /\ w2 # 0
=============================================================================
