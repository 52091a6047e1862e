------------------------------- MODULE Sectors -------------------------------
(* Symmetry-resolved spectra.  For a group G acting on a number sector by signed
   permutations U_g that commute with H, the spectrum of H in the isotypic subspace of an
   irrep with character chi and dimension m has the power sums
       sum_i E_i^k = (m / |G|) sum_g conj(chi(g)) tr(U_g H^k).                        *)
EXTENDS Groups, Hubbard, SpinModel

(* ----- Hamiltonian columns with integer entries ----------------------------------- *)
ISqrt(x) == CHOOSE r \in 0..60 : r * r = x
USq(x) == IF x < 0 THEN -ISqrt(-x) ELSE ISqrt(x)
(* spin one half: 2H *)
HalfCol(S, G, p, s) ==
  LET E == NonZero(SpinCol(S, G, p, 1, s))
      rows == {x[1] : x \in E}
      el(r) == CHOOSE x \in E : x[1] = r
  IN [r \in rows |-> IF r = s THEN <<el(r)[3], el(r)[4]>> ELSE <<USq(el(r)[3]), USq(el(r)[4])>>]
ModelCol(i, s) == TLCEval(IF i.S.f THEN HamCol(i.S, i.G, i.p, s) ELSE HalfCol(i.S, i.G, i.p, s))

(* ----- basis of the number sector, ns[k] = -1: not fixed ----------------------------- *)
(* states of species k alone: sums of the weights of the occupied logical sites *)
SpeciesStates(S, k, m) ==
  LET W == {Weight(S, Logical(S, x, k)) : x \in 0..(S.n - 1)}
      T == IF m = -1 THEN SUBSET W ELSE kSubset(m, W)
  IN {FoldSet(LAMBDA w, acc : w + acc, 0, t) : t \in T}
RECURSIVE SectorUpTo(_, _, _)
SectorUpTo(S, ns, k) == IF k = 0 THEN {0}
                        ELSE {a + b : a \in SectorUpTo(S, ns, k - 1), b \in SpeciesStates(S, k - 1, ns[k])}
SectorStates(S, ns) == IF S.b = 2 THEN SectorUpTo(S, ns, S.ns)
                       ELSE {s \in States(S) : \A k \in 1..S.ns : ns[k] = -1 \/ SpeciesNum(S, s, k - 1) = ns[k]}
(* representation matrix of a site permutation p (1-based) on the ordered basis bs *)
SignedPerm(S, p, bs, pos) ==
  LET sig == TLCEval(LogicalPerm(S, p))
  IN TLCEval([c \in 1..Len(bs) |-> <<pos[Moved(S, sig, bs[c])], SignPhase(XformSign(S, sig, bs[c]))>>])

(* ----- traces tr(U_g H^k) for all g, k = 0..K ------------------------------------------ *)
(* H as columns over 1..d: H[c] = function row -> amplitude *)
Step(H, col) ==
  LET rows == UNION {DOMAIN H[m] : m \in DOMAIN col}
  IN Prune([r \in rows |-> CSum({m \in DOMAIN col : r \in DOMAIN H[m]}, LAMBDA m : CMul(H[m][r], col[m]))])
RECURSIVE PowerCols(_, _, _)
PowerCols(H, d, k) == IF k = 0 THEN TLCEval([c \in 1..d |-> [r \in {c} |-> <<1, 0>>]])
                      ELSE LET P == PowerCols(H, d, k - 1) IN TLCEval([c \in 1..d |-> Step(H, P[c])])
(* tr(U P) = sum_c sum_r P[r,c] <c|U|r> *)
TraceWith(u, P) == CSum(1..Len(u), LAMBDA r : TurnBy(u[r][2], Amp(P[u[r][1]], r)))

(* ----- comparison --------------------------------------------------------------------- *)
Thousandth(x) == RoundHalfUp(x, 1000)
(* tr: function g -> <<re, im>>; chr(g) = <<re, im>> in millionths; the power sum is recorded
   in thousandths *)
PowerSumOk(rec, tr, m, chr(_), ord) ==
  LET els == DOMAIN tr
      X == TLCEval([g \in els |-> chr(g)])
      whole == \A g \in els : X[g][1] % 1000000 = 0 /\ X[g][2] % 1000000 = 0
      unit == IF whole THEN 1000000 ELSE 1000
      mult == 1000000 \div unit              \* scale of S below
      term(g) == CScale(m, CMul(<<RoundHalfUp(X[g][1], unit), -RoundHalfUp(X[g][2], unit)>>, tr[g]))
      S == CSum(els, term)
      inexact == {g \in els : X[g][1] % 1000 # 0 \/ X[g][2] % 1000 # 0}
      slack == SumOver(inexact, LAMBDA g : m * (Abs(tr[g][1]) + Abs(tr[g][2])))
      q == FloorDiv(S[1], ord)
      sc == 1000 \div mult                   \* rec is in thousandths
  IN Abs(rec - sc * q - (sc * (S[1] % ord)) \div ord) <= slack \div ord + 4
     /\ Abs(S[2]) <= slack
=============================================================================
