------------------------------ MODULE Trace_C06 ------------------------------
(* C06: single-, two-, many-site operators and the labels of the basis states. *)
EXTENDS Fock, TraceBase

Std(e, S, f(_)) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF ~e.exact THEN {"off-grid"}
  ELSE Failing(<< <<"matrix", SameColumns(e.out.m, e.inp, Dim(S), Dim(S), f)>>, <<"pure", e.out.pure>> >>)

VSingle(e) == LET i == e.inp
                  S == i.S
              IN Std(e, S, LAMBDA c : LocalCol(S, i.op, Logical(S, i.site, i.sp), i.fermi, c))
VTwo(e) == LET i == e.inp
               S == i.S
           IN Std(e, S, LAMBDA c : TwoCol(S, i.op1, Logical(S, i.s1, i.k1), i.op2, Logical(S, i.s2, i.k2), i.fermi, c))
(* sum over sites with weights i^w[site] *)
SumCol(S, op, k, fermi, w, c) ==
  FoldSet(LAMBDA x, acc : ColAdd(ColScale(IPow(w[x + 1]), LocalCol(S, op, Logical(S, x, k), fermi, c)), acc), <<>>, 0..(S.n - 1))
VSum(e) == LET i == e.inp IN Std(e, i.S, LAMBDA c : SumCol(i.S, i.op, i.sp, i.fermi, i.w, c))
(* tensor power of one local operator *)
RECURSIVE PowCol(_, _, _, _)
PowCol(S, op, p, col) == IF p = NL(S) THEN col ELSE PowCol(S, op, p + 1, ThenCol(S, op, p, FALSE, col))
VAll(e) == LET i == e.inp IN Std(e, i.S, LAMBDA c : PowCol(i.S, i.op, 0, [r \in {c} |-> C1]))
(* number of linked pairs of up spins; conn lists the links *)
VPairs(e) == LET i == e.inp
                 S == i.S
                 up(c, x) == IF Digit(S, c, x) = 0 THEN 1 ELSE 0
                 cnt(c) == SumOver(Rng(i.links), LAMBDA l : up(c, l[1]) * up(c, l[2]))
             IN Std(e, S, LAMBDA c : IF cnt(c) = 0 THEN <<>> ELSE [r \in {c} |-> <<cnt(c), 0>>])

(* labels: fermions list occupations, spins list 1 for up *)
VLabels(e) ==
  LET S == e.inp.S
      lab == e.out.lab
      want(s, p) == IF S.f THEN Digit(S, s, p) ELSE 1 - Digit(S, s, p)
      rows == e.inp.rows   \* basis states selected by the projector, in order
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<<
       <<"shape", HasShape(lab, Len(rows), NL(S))>>,
       <<"labels", HasShape(lab, Len(rows), NL(S)) =>
             \A k \in 1..Len(rows) : \A p \in 0..(NL(S) - 1) : lab[k][p + 1] = want(rows[k], p)>>,
       <<"text", S.f => e.out.text = [k \in 1..NL(S) |-> <<(k - 1) % S.n, (k - 1) \div S.n>>]>> >>)
VParity(e) ==
  LET S == e.inp.S
      ups(s) == NL(S) - TotalNum(S, s)
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"parity", e.out.v = [k \in 1..Dim(S) |-> ups(k - 1) % 2]>> >>)
VIndex(e) ==
  LET i == e.inp IN
  IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
  ELSE Failing(<< <<"spinless", e.out.p = i.n * i.k + i.x>>, <<"spinful", e.out.x = i.x /\ e.out.k = i.k>> >>)

(* spin matrices.  tw = 2*spin, b = tw+1, index d means 2m = tw - 2d.  The recorded
   entries are signed squares of (2 * entry), so that square roots are exact. *)
Up(tw, d) == (d * (tw - d + 1))            \* <d-1| S+ |d>^2 = (s-m)(s+m+1)
SgnSq(x) == IF x < 0 THEN -(x * x) ELSE x * x
VSpinMats(e) ==
  LET tw == e.inp.tw
      b == tw + 1
      o == e.out
      I == 1..b
      z == <<0, 0>>
      plus(r, c) == IF r = c - 1 THEN <<4 * Up(tw, c - 1), 0>> ELSE z
      minus(r, c) == IF c = r - 1 THEN <<4 * Up(tw, r - 1), 0>> ELSE z
      xx(r, c) == IF r = c - 1 THEN <<Up(tw, c - 1), 0>> ELSE IF c = r - 1 THEN <<Up(tw, r - 1), 0>> ELSE z
      yy(r, c) == IF r = c - 1 THEN <<0, -Up(tw, c - 1)>> ELSE IF c = r - 1 THEN <<0, Up(tw, r - 1)>> ELSE z
      zz(r, c) == IF r = c THEN <<SgnSq(tw - 2 * (c - 1)), 0>> ELSE z
      same(m, f(_, _)) == HasShape(m, b, b) /\ \A r \in I : \A c \in I : m[r][c] = f(r, c)
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"raising", same(o.p, plus)>>, <<"lowering", same(o.m, minus)>>, <<"sx", same(o.x, xx)>>,
                     <<"sy", same(o.y, yy)>>, <<"sz", same(o.z, zz)>>, <<"dimension", o.b = b>> >>)

(* special product states of n spins-1/2, squared amplitudes scaled by 2^n * n with sign *)
VSpecial(e) ==
  LET n == e.inp.n
      S == [n |-> n, ns |-> 1, b |-> 2, f |-> FALSE]
      D == Dim(S)
      sc == D * n
      o == e.out.cols
      basis(k) == [r \in 1..D |-> IF r - 1 = k THEN sc ELSE 0]
      neel(first) == SumOver({p \in 0..(n - 1) : (p % 2 = 0) # (first = 0)}, LAMBDA p : Weight(S, p))
      downs(r) == TotalNum(S, r)
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF Len(o) # 7 \/ Len(e.out.desc) # 7 THEN {"shape"}
     ELSE Failing(<<
       <<"names", e.out.desc = <<"AllUp", "AllDn", "AFM1", "AFM2", "AllPlus", "AllMinus", "SymmExc">> >>,
       <<"all-up", o[1] = basis(0)>>,
       <<"all-down", o[2] = basis(D - 1)>>,
       <<"neel", n > 1 => (o[3] = basis(neel(0)) /\ o[4] = basis(neel(1)))>>,
       <<"plus", o[5] = [r \in 1..D |-> n]>>,
       <<"minus", o[6] = [r \in 1..D |-> ParitySign(downs(r - 1)) * n]>>,
       <<"one-up", o[7] = [r \in 1..D |-> IF n - downs(r - 1) = 1 THEN D ELSE 0]>> >>)

V_C06(s, e) == CASE e.op = "single" -> VSingle(e) [] e.op = "two" -> VTwo(e) [] e.op = "sum" -> VSum(e)
                 [] e.op = "all" -> VAll(e) [] e.op = "pairs" -> VPairs(e) [] e.op = "labels" -> VLabels(e)
                 [] e.op = "parity" -> VParity(e) [] e.op = "index" -> VIndex(e) [] e.op = "spinmats" -> VSpinMats(e)
                 [] e.op = "special" -> VSpecial(e)
                 [] e.op = "reject" -> (IF e.ok THEN {"must-be-rejected"} ELSE {}) [] OTHER -> {"unknown-operation"}
A_C06(s, e) == s
S_C06 == 0
=============================================================================
