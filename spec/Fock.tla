-------------------------------- MODULE Fock --------------------------------
(* Many-body basis states and operators on them.

   A system S is a record [n, ns, b, f]: n physical sites, ns species, local dimension
   b, and f = TRUE for fermions.  Logical site p = n*species + site (0-based).  Basis
   state s in 0..b^NL-1 has digit Digit(S,s,p) on logical site p, site 0 being the most
   significant.  For fermions digit = occupation and
   |s> = c+_{pk} ... c+_{p1} |0>  for occupied p1 < ... < pk (higher index further left).
   For spins digit d means m = spin - d.

   An operator is a function  column -> (row -> amplitude), amplitudes complex integers
   <<re, im>>; rows not in the inner domain are zero. *)
EXTENDS Base

NL(S) == S.n * S.ns
Dim(S) == Pow(S.b, NL(S))
Weight(S, p) == Pow(S.b, NL(S) - 1 - p)
Digit(S, s, p) == (s \div Weight(S, p)) % S.b
SetDigit(S, s, p, d) == s + (d - Digit(S, s, p)) * Weight(S, p)
Logical(S, site, sp) == S.n * sp + site
States(S) == 0..(Dim(S) - 1)
NumAfter(S, s, p) == SumOver((p + 1)..(NL(S) - 1), LAMBDA q : Digit(S, s, q))
SpeciesNum(S, s, k) == SumOver(0..(S.n - 1), LAMBDA i : Digit(S, s, Logical(S, i, k)))
TotalNum(S, s) == SumOver(0..(NL(S) - 1), LAMBDA p : Digit(S, s, p))
ParitySign(k) == IF k % 2 = 0 THEN 1 ELSE -1

(* ----- algebra of operators given as column functions ------------------- *)
Zero(dom) == [c \in dom |-> <<>>]
Amp(col, r) == IF r \in DOMAIN col THEN col[r] ELSE CZero
Prune(col) == LET V == TLCEval(col)
                  R == {r \in DOMAIN V : V[r] # CZero} IN TLCEval([r \in R |-> V[r]])
ColAdd(a, b) == Prune([r \in DOMAIN a \cup DOMAIN b |-> CAdd(Amp(a, r), Amp(b, r))])
ColScale(k, a) == IF k = CZero THEN <<>> ELSE [r \in DOMAIN a |-> CMul(k, a[r])]
OpAdd(A, B) == TLCEval([c \in DOMAIN A |-> ColAdd(A[c], B[c])])
OpScale(k, A) == [c \in DOMAIN A |-> ColScale(k, A[c])]
OpMul(A, B) == TLCEval([c \in DOMAIN B |->
    LET b == B[c]
        rows == UNION {DOMAIN A[m] : m \in DOMAIN b}
    IN Prune([r \in rows |-> CSum(DOMAIN b, LAMBDA m : CMul(Amp(A[m], r), b[m]))])])
OpId(dom) == [c \in dom |-> [r \in {c} |-> <<1, 0>>]]
OpDag(A) == [c \in DOMAIN A |-> LET R == {r \in DOMAIN A : c \in DOMAIN A[r]} IN [r \in R |-> CConj(A[r][c])]]
OpSum(dom, T, f(_)) == FoldSet(LAMBDA x, acc : OpAdd(f(x), acc), Zero(dom), T)

(* ----- local operators --------------------------------------------------- *)
(* op: b x b matrix (rows) of complex integers acting on logical site p.  In fermion
   format the operator anticommutes with those on later sites. *)
LocalCol(S, op, p, fermi, s) ==
  LET d == Digit(S, s, p)
      sg == IF fermi THEN ParitySign(NumAfter(S, s, p)) ELSE 1
      D == {x \in 0..(S.b - 1) : op[x + 1][d + 1] # CZero}
  IN [r \in {SetDigit(S, s, p, x) : x \in D} |-> CScale(sg, op[Digit(S, r, p) + 1][d + 1])]
LocalOp(S, op, p, fermi) == [s \in States(S) |-> LocalCol(S, op, p, fermi, s)]
(* op1 on p1 after op2 on p2, as one column *)
ThenCol(S, op1, p1, fermi, col) ==
  LET parts == TLCEval([m \in DOMAIN col |-> TLCEval(LocalCol(S, op1, p1, fermi, m))])
      rows == UNION {DOMAIN parts[m] : m \in DOMAIN col}
  IN Prune([r \in rows |-> CSum(DOMAIN col, LAMBDA m : CMul(Amp(parts[m], r), col[m]))])
TwoCol(S, op1, p1, op2, p2, fermi, s) == ThenCol(S, op1, p1, fermi, LocalCol(S, op2, p2, fermi, s))
TwoOp(S, op1, p1, op2, p2, fermi) == [s \in States(S) |-> TwoCol(S, op1, p1, op2, p2, fermi, s)]

C0 == <<0, 0>>
C1 == <<1, 0>>
Cdag == <<<<C0, C0>>, <<C1, C0>>>>
Cann == <<<<C0, C1>>, <<C0, C0>>>>
Nop == <<<<C0, C0>>, <<C0, C1>>>>

(* ----- relabelling of sites ---------------------------------------------- *)
(* sig: permutation of logical sites, 0-based function.  U c+_p U+ = c+_{sig(p)}. *)
Moved(S, sig, s) == SumOver(0..(NL(S) - 1), LAMBDA p : Digit(S, s, p) * Weight(S, sig[p]))
Inversions(S, sig, s) == Cardinality({pq \in (0..(NL(S) - 1)) \X (0..(NL(S) - 1)) :
    pq[1] < pq[2] /\ Digit(S, s, pq[1]) = 1 /\ Digit(S, s, pq[2]) = 1 /\ sig[pq[1]] > sig[pq[2]]})
XformSign(S, sig, s) == IF S.f THEN ParitySign(Inversions(S, sig, s)) ELSE 1
XformCol(S, sig, s) == [r \in {Moved(S, sig, s)} |-> <<XformSign(S, sig, s), 0>>]
(* physical permutation (1-based function on 1..n) acting on every species *)
LogicalPerm(S, p) == [q \in 0..(NL(S) - 1) |-> S.n * (q \div S.n) + p[(q % S.n) + 1] - 1]
(* ... on one species only *)
LogicalPermOn(S, p, k) == [q \in 0..(NL(S) - 1) |-> IF q \div S.n = k THEN S.n * k + p[(q % S.n) + 1] - 1 ELSE q]
XformOp(S, sig) == [s \in States(S) |-> XformCol(S, sig, s)]

(* ----- comparing with a recorded matrix [nr, nc, e] ----------------------- *)
Entries(A, dom) == UNION {{<<r, c, A[c][r][1], A[c][r][2]>> : r \in DOMAIN A[c]} : c \in dom}
EntrySet(m) == {m.e[k] : k \in 1..Len(m.e)}
(* does matrix m, restricted to the columns in dom, equal f? *)
SameMatrix(m, nr, nc, f(_)) ==
  /\ m.nr = nr /\ m.nc = nc
  /\ EntrySet(m) = UNION {LET col == f(c) IN {<<r, c, col[r][1], col[r][2]>> : r \in DOMAIN col} : c \in 0..(nc - 1)}
(* large systems are recorded on a sample of columns, listed in the input as "cols" *)
ColDom(i, nc) == IF "cols" \in DOMAIN i THEN Rng(i.cols) ELSE 0..(nc - 1)
SameColumns(m, i, nr, nc, f(_)) ==
  /\ m.nr = nr /\ m.nc = nc
  /\ EntrySet(m) = UNION {LET col == TLCEval(f(c)) IN {<<r, c, col[r][1], col[r][2]>> : r \in DOMAIN col} : c \in ColDom(i, nc)}
(* P A P+ for a sparse integer matrix P given by its rows: P[a] = sequence of <<col, re, im>>.
   Result as an entry set. *)
Projected(P, cols(_)) ==
  LET used == UNION {{P[a][k][1] : k \in 1..Len(P[a])} : a \in 1..Len(P)}
      A == [c \in used |-> cols(c)]
      el(a, b) == CSum({<<k, l>> : k \in 1..Len(P[a]), l \in 1..Len(P[b])}, LAMBDA x :
                    LET pa == P[a][x[1]]
                        pb == P[b][x[2]]
                    IN CMul(CMul(<<pa[2], pa[3]>>, Amp(A[pb[1]], pa[1])), <<pb[2], -pb[3]>>))
      all == {<<a - 1, b - 1, el(a, b)[1], el(a, b)[2]>> : a \in 1..Len(P), b \in 1..Len(P)}
  IN {x \in all : x[3] # 0 \/ x[4] # 0}
SameProjected(m, P, cols(_)) == m.nr = Len(P) /\ m.nc = Len(P) /\ EntrySet(m) = Projected(P, cols)
=============================================================================
