------------------------------ MODULE MC_Groups ------------------------------
(* Laws of the character tables: orthogonality, dimensions, class functions; and that the
   isotypic projectors of a concrete representation resolve the identity. *)
EXTENDS Groups
CONSTANT MaxN
VARIABLES n, done
Init == n \in 1..MaxN /\ done = FALSE
Next == ~done /\ done' = TRUE /\ n' = n

Near(a, b) == Abs(a - b) <= 40
(* products are computed in thousandths to stay within 32 bits *)
Mil(x) == RoundHalfUp(x, 1000)
ZnOrth == \A p, q \in 0..(n - 1) :
   LET s == CSum(0..(n - 1), LAMBDA l : CMul(<<Mil(ZnChar(n, p, l)[1]), Mil(ZnChar(n, p, l)[2])>>,
                                             <<Mil(ZnChar(n, q, l)[1]), -Mil(ZnChar(n, q, l)[2])>>))
   IN Abs(s[1] - (IF p = q THEN n * Unit ELSE 0)) <= 8000 /\ Abs(s[2]) <= 8000
DOrth == n >= 2 => \A p, q \in DIrreps(n) :
   LET s == SumOver(DElems(n), LAMBDA g : Mil(DChar(n, p, g)) * Mil(DChar(n, q, g)))
   IN Abs(s - (IF p = q THEN 2 * n * Unit ELSE 0)) <= 20000
DDims == n >= 3 => SumOver(DIrreps(n), LAMBDA r : r.d * r.d) = 2 * n
DDoc == n \in 2..4 => Rng(DOrder(n)) = (IF n = 2 THEN {D1(1, 1), D1(1, -1), D1(-1, 1), D1(-1, -1)} ELSE DIrreps(n))
WOrth == \A p, q \in WIrreps :
   SumOver(WElems, LAMBDA g : ((2 * WChar(p, g)) \div Unit) * ((2 * WChar(q, g)) \div Unit)) = IF p = q THEN 4 * 72 ELSE 0
WDims == SumOver(WIrreps, LAMBDA w : w.d * w.d) = 72
(* class function: chi(h g h^-1) = chi(g) with the faithful action on the nine sites *)
Site(v) == (v[1] % 3) * 3 + (v[2] % 3) + 1
Pt(k) == <<(k - 1) \div 3, (k - 1) % 3>>
Act9(g) == [k \in 1..9 |-> LET p == PointAct(g, Pt(k)) IN <<Site(<<p[1] + g[1], p[2] + g[2]>>), 0>>]
R9 == Act9(<<0, 0, 1, 0>>)
S9 == Act9(<<0, 0, 0, 1>>)
TX9 == Act9(<<1, 0, 0, 0>>)
TY9 == Act9(<<0, 1, 0, 0>>)
WHomo == \A g \in WElems : WRep(R9, S9, TX9, TY9, g) = Act9(g)
WClass == \A g \in WElems : \A h \in {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>} :
   LET c == CHOOSE x \in WElems : UMul(Act9(x), Act9(h)) = UMul(Act9(h), Act9(g))
   IN \A w \in WIrreps : WChar(w, c) = WChar(w, g)
(* ranks on the nine sites: trivial (1) and the two 4-dimensional stars *)
WRanks == LET tr(w) == SumOver(WElems, LAMBDA g : ((2 * WChar(w, g)) \div Unit) * Cardinality({k \in 1..9 : Act9(g)[k][1] = k}))
          IN SumOver(WIrreps, LAMBDA w : w.d * tr(w)) = 2 * 72 * 9
Laws == ZnOrth /\ DOrth /\ DDims /\ DDoc /\ (n = 3 => (WOrth /\ WDims /\ WHomo /\ WClass /\ WRanks))
=============================================================================
