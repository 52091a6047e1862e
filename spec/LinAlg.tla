------------------------------- MODULE LinAlg -------------------------------
(* Vectors (sequences) and matrices (sequences of rows) of complex integers. *)
EXTENDS Base

RECURSIVE CSumSeqR(_, _)
CSumSeqR(s, k) == IF k = 0 THEN CZero ELSE CAdd(CSumSeqR(s, k - 1), s[k])
CSumSeq(s) == CSumSeqR(s, Len(s))
CDot(a, b) == CSumSeq([k \in 1..Len(a) |-> CMul(a[k], b[k])])
CInner(a, b) == CSumSeq([k \in 1..Len(a) |-> CMul(CConj(a[k]), b[k])])       \* <a|b>
MatVec(M, v) == TLCEval([r \in 1..Len(M) |-> CDot(M[r], v)])
MatColumn(M, c) == TLCEval([r \in 1..Len(M) |-> M[r][c]])
NCols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Dagger(M) == TLCEval([c \in 1..NCols(M) |-> TLCEval([r \in 1..Len(M) |-> CConj(M[r][c])])])
MatMul(A, B) == TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..NCols(B) |-> CSumSeq([k \in 1..Len(B) |-> CMul(A[r][k], B[k][c])])])])
IsHermitian(M) == \A r, c \in 1..Len(M) : M[r][c] = CConj(M[c][r])
Expect(M, v) == CInner(v, MatVec(M, v))
NormSq(v) == CInner(v, v)[1]
Near(a, b, tol) == Abs(a - b) <= tol
CNear(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol

(* Unitary evolution in the subspace spanned by the columns of W / sqrt(s):
   s * |psi(t)> = W diag((-i)^(E m)) W+ |psi>, with t = m pi / 2 and integer energies *)
Evolved(W, E, m, v) ==
  LET a == MatVec(Dagger(W), v)
      b == TLCEval([k \in 1..Len(E) |-> CMul(IPow(-(E[k] * m)), a[k])])
  IN MatVec(W, b)
=============================================================================
