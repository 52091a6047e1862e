------------------------------- MODULE Thermal -------------------------------
(* Canonical ensembles of integer energies at inverse temperature k ln 2, so that every
   Boltzmann weight is a power of two.  k = -1 stands for zero temperature, where the
   weights are those of the degenerate ground states. *)
EXTENDS LinAlg

MinE(E) == Min({E[j] : j \in 1..Len(E)})
(* 2^m times the weight of energy x at k, reference energy ref *)
W2(m, k, x) == IF k = -1 THEN (IF x = 0 THEN Pow(2, m) ELSE 0)
               ELSE Pow(2, m - k * x)
Weights(m, k, E, ref) == TLCEval([j \in 1..Len(E) |-> W2(m, k, E[j] - ref)])
Z2(m, k, E, ref) == SumSeq(Weights(m, k, E, ref))
(* numerator of the thermal average of the values x *)
Num2(m, k, E, x, ref) == LET w == Weights(m, k, E, ref) IN SumSeq([j \in 1..Len(E) |-> w[j] * x[j]])
(* r / scale = num / z *)
IsRatio(r, scale, num, z, tol) == Abs(r * z - scale * num) <= tol * z
=============================================================================
