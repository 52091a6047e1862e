----------------------------- MODULE Expansion -----------------------------
(* Numerical linked-cluster expansion of integer cluster values. *)
EXTENDS Cluster

(* W[i] = P[i] - sum_j M[i][j] W[j];  M strictly lower triangular, given as a set of
   <<row, col, count>> (1-based) *)
RECURSIVE WeightsR(_, _, _, _)
WeightsR(P, M, k, acc) ==
  IF k > Len(P) THEN acc
  ELSE WeightsR(P, M, k + 1, Append(acc, P[k] - SumOver({x \in M : x[1] = k}, LAMBDA x : x[3] * acc[x[2]])))
ExpWeights(P, M) == WeightsR(P, M, 1, <<>>)
PartialSum(mult, W, from, to) == SumSeq([k \in 1..(to - from + 1) |-> mult[from + k - 1] * W[from + k - 1]])
(* (a+b)^(i+1) times Euler term i (0-based) for y = a / b *)
EulerTerm(x, i, a, b) == SumSeq([j \in 1..(i + 1) |-> Binom(i, j - 1) * Pow(a, j) * Pow(b, i - j + 1) * x[j]])
=============================================================================
