------------------------------ MODULE Response ------------------------------
(* Linear response.  Energies E[n] are integers (ascending), inverse temperature k ln 2
   (k = -1: zero temperature).  Frequencies and widths are given in half units:
   w2 = 2 omega, h2 = 2 eta, so pi times a Lorentzian of width eta at distance x is
   eta / (eta^2 + x^2) = 2 h2 / (h2^2 + (2x)^2).
   All sums below are multiplied by 2^m (Boltzmann weights) and by 10^4. *)
EXTENDS Thermal, Fock

LorNum(h2) == 2 * h2
LorDen(h2, x2) == h2 * h2 + x2 * x2
LorTerm(amp, h2, x2) == IF amp = 0 THEN 0 ELSE RoundHalfUp(10000 * LorNum(h2) * amp, LorDen(h2, x2))
Pairs(E) == (1..Len(E)) \X (1..Len(E))

(* sum_nm Re(A_nm B_mn) (w_n + sg w_m) pi L(omega + E_n - E_m); sg = -1 commutator, +1 anticommutator *)
Retarded(A, B, E, m, k, sg, w2, h2) ==
  LET ref == MinE(E)
      w == Weights(m, k, E, ref)
  IN SumOver(Pairs(E), LAMBDA p :
       LorTerm(CMul(A[p[1]][p[2]], B[p[2]][p[1]])[1] * (w[p[1]] + sg * w[p[2]]), h2, w2 + 2 * (E[p[1]] - E[p[2]])))

(* |J|^2 *)
Abs2(z) == z[1] * z[1] + z[2] * z[2]
(* omega * nsites * sigma(omega) at finite temperature *)
Optical(J, E, m, k, w2, h2) ==
  LET w == Weights(m, k, E, MinE(E))
  IN SumOver(Pairs(E), LAMBDA p :
       LorTerm(Abs2(J[p[1]][p[2]]) * (w[p[2]] - w[p[1]]), h2, w2 - 2 * (E[p[1]] - E[p[2]])))
(* nsites * sigma(omega) at zero temperature, unique ground state 1 *)
OpticalZero(J, E, w2, h2) ==
  SumOver({n \in 1..Len(E) : E[n] # E[1]}, LAMBDA n :
     IF Abs2(J[n][1]) = 0 THEN 0
     ELSE RoundHalfUp(10000 * LorNum(h2) * Abs2(J[n][1]), LorDen(h2, Abs(w2) - 2 * (E[n] - E[1])) * (E[n] - E[1])))
(* nsites / pi * integral of sigma, excluding degenerate pairs *)
SumRule(J, E, m, k) ==
  IF k = -1 THEN SumOver({n \in 1..Len(E) : E[n] # E[1]}, LAMBDA n : RoundHalfUp(20000 * Pow(2, m) * Abs2(J[n][1]), E[n] - E[1]))
  ELSE LET w == Weights(m, k, E, MinE(E))
       IN SumOver({p \in Pairs(E) : E[p[1]] # E[p[2]]}, LAMBDA p :
            RoundHalfUp(10000 * Abs2(J[p[1]][p[2]]) * (w[p[2]] - w[p[1]]), E[p[1]] - E[p[2]]))

(* ----- current operator ------------------------------------------------------------ *)
(* pos: integer site coordinates; per: period vectors; metric g: length^2 = g1 x^2 + g2 y^2 *)
Images(L, i, j) ==
  LET A == IF Len(L.per) >= 1 THEN -2..2 ELSE {0}
      B == IF Len(L.per) >= 2 THEN -2..2 ELSE {0}
      sh(a, b, c) == (IF Len(L.per) >= 1 THEN a * L.per[1][c] ELSE 0) + (IF Len(L.per) >= 2 THEN b * L.per[2][c] ELSE 0)
  IN {<<L.pos[i][1] - L.pos[j][1] + sh(a, b, 1), L.pos[i][2] - L.pos[j][2] + sh(a, b, 2)>> : a \in A, b \in B}
Len2(L, v) == L.g[1] * v[1] * v[1] + L.g[2] * v[2] * v[2]
Closest(L, i, j) == LET I == TLCEval(Images(L, i, j))
                        best == Min({Len2(L, v) : v \in I}) IN {v \in I : Len2(L, v) = best}
(* c+_i c_j amplitude of J . dir / i : t_ij (r_i - r_j) . dir;  T[i][j][k] complex *)
CurrentCol(S, L, T, dir, s) ==
  LET occ(i, k) == Digit(S, s, Logical(S, i - 1, k - 1))
      act == {x \in (1..S.n) \X (1..S.n) \X (1..S.ns) : x[1] # x[2] /\ T[x[1]][x[2]][x[3]] # CZero
                       /\ occ(x[2], x[3]) = 1 /\ occ(x[1], x[3]) = 0}
      w(i, j) == LET v == CHOOSE v \in Closest(L, i, j) : TRUE IN dir[1] * v[1] + dir[2] * v[2]
  IN FoldSet(LAMBDA x, acc : ColAdd(ColScale(CMul(<<0, w(x[1], x[2])>>, T[x[1]][x[2]][x[3]]),
                 TwoCol(S, Cdag, Logical(S, x[1] - 1, x[3] - 1), Cann, Logical(S, x[2] - 1, x[3] - 1), TRUE, s)), acc),
             <<>>, act)
Unambiguous(S, L, T) == \A i, j \in 1..S.n : (i # j /\ \E k \in 1..S.ns : T[i][j][k] # CZero) => Cardinality(Closest(L, i, j)) = 1
=============================================================================
