------------------------------- MODULE Groups -------------------------------
(* Finite symmetry groups of the lattice clusters, their irreducible characters (in
   millionths), and representations by permutations with quarter-turn phases.

   A representation matrix is a sequence u over columns 1..d; u[c] = <<row, k>> says that basis
   state c goes to i^k times basis state row (k = 2: minus one). *)
EXTENDS Base, TLC

Unit == 1000000
(* CosT[n][k+1] = 10^6 cos(2 pi k / n) *)
CosT == <<
  <<1000000>>,
  <<1000000, -1000000>>,
  <<1000000, -500000, -500000>>,
  <<1000000, 0, -1000000, 0>>,
  <<1000000, 309017, -809017, -809017, 309017>>,
  <<1000000, 500000, -500000, -1000000, -500000, 500000>>,
  <<1000000, 623490, -222521, -900969, -900969, -222521, 623490>>,
  <<1000000, 707107, 0, -707107, -1000000, -707107, 0, 707107>> >>
SinT == <<
  <<0>>,
  <<0, 0>>,
  <<0, 866025, -866025>>,
  <<0, 1000000, 0, -1000000>>,
  <<0, 951057, 587785, -587785, -951057>>,
  <<0, 866025, 866025, 0, -866025, -866025>>,
  <<0, 781831, 974928, 433884, -433884, -974928, -781831>>,
  <<0, 707107, 1000000, 707107, 0, -707107, -1000000, -707107>> >>
Cos(n, k) == CosT[n][(k % n) + 1]
Sin(n, k) == SinT[n][(k % n) + 1]

(* ----- permutations with phases ---------------------------------------------- *)
UId(d) == TLCEval([c \in 1..d |-> <<c, 0>>])
SignPhase(s) == IF s = 1 THEN 0 ELSE 2
TurnBy(k, z) == CASE k = 0 -> z [] k = 1 -> <<-z[2], z[1]>> [] k = 2 -> CNeg(z) [] OTHER -> <<z[2], -z[1]>>
UMul(u, v) == TLCEval([c \in 1..Len(v) |-> <<u[v[c][1]][1], (u[v[c][1]][2] + v[c][2]) % 4>>])
RECURSIVE UPow(_, _)
UPow(u, k) == IF k = 0 THEN UId(Len(u)) ELSE UMul(u, UPow(u, k - 1))
IsRep1(u, n) == UPow(u, n) = UId(Len(u))
IsDihedral(r, s, n) == IsRep1(r, n) /\ IsRep1(s, 2) /\ UMul(s, UMul(r, s)) = UPow(r, n - 1)

(* ----- cyclic group: irrep q, element l -> exp(-2 pi i q l / n) -------------- *)
ZnChar(n, q, l) == <<Cos(n, q * l), -Sin(n, q * l)>>

(* ----- dihedral group of order 2n: elements <<a, b>> for R^a S^b -------------- *)
(* irreps: one-dimensional <<x, y>> with R -> x, S -> y (x = -1 only for even n), then
   two-dimensional j with R^a -> 2 cos(2 pi j a / n), S -> 0 *)
DElems(n) == (0..(n - 1)) \X {0, 1}
D1(x, y) == [d |-> 1, x |-> x, y |-> y, j |-> 0]
D2d(j) == [d |-> 2, x |-> 1, y |-> 1, j |-> j]
Num2d(n) == (n - 1) \div 2
DIrreps(n) == {D1(1, 1), D1(1, -1)} \cup (IF n % 2 = 0 THEN {D1(-1, 1), D1(-1, -1)} ELSE {})
              \cup {D2d(j) : j \in 1..Num2d(n)}
DChar(n, r, g) == IF r.d = 1 THEN Unit * (IF g[1] % 2 = 1 THEN r.x ELSE 1) * (IF g[2] = 1 THEN r.y ELSE 1)
                  ELSE IF g[2] = 1 THEN 0 ELSE 2 * Cos(n, r.j * g[1])
(* documented order of the projectors *)
DOrder(n) == CASE n = 2 -> <<D1(1, 1), D1(1, -1), D1(-1, 1), D1(-1, -1)>>
               [] n = 3 -> <<D1(1, 1), D1(1, -1), D2d(1)>>
               [] n = 4 -> <<D1(1, 1), D1(1, -1), D1(-1, 1), D1(-1, -1), D2d(1)>>
               [] OTHER -> <<>>
DRep(r, s, n, g) == LET R == UPow(r, g[1]) IN IF g[2] = 1 THEN UMul(R, s) ELSE R

(* ----- translations of the 3 x 3 torus with the symmetry of the square -------- *)
(* elements <<a, b, c, d>> for Tx^a Ty^b R^c S^d, R: (x,y)->(-y,x), S: (x,y)->(-x,y).
   Irreps: little-group construction.  kind 0: an irrep of the square; kind 1: star of
   k = (1,0) with the sign eta of the reflection fixing k; kind 2: star of k = (1,1). *)
WElems == (0..2) \X (0..2) \X (0..3) \X {0, 1}
Mirror(v) == <<-v[1], v[2]>>
RECURSIVE Turn(_, _)
Turn(v, c) == IF c = 0 THEN v ELSE Turn(<<-v[2], v[1]>>, c - 1)
PointAct(g, v) == Turn(IF g[4] = 1 THEN Mirror(v) ELSE v, g[3])
Mod3(v) == <<v[1] % 3, v[2] % 3>>
Star(kind) == IF kind = 1 THEN {<<1, 0>>, <<2, 0>>, <<0, 1>>, <<0, 2>>} ELSE {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
WIrreps == {[kind |-> 0, d |-> r.d, r |-> r, eta |-> 1] : r \in DIrreps(4)}
           \cup {[kind |-> k, d |-> 4, r |-> D1(1, 1), eta |-> s] : k \in {1, 2}, s \in {1, -1}}
WChar(w, g) ==
  IF w.kind = 0 THEN DChar(4, w.r, <<g[3], g[4]>>)
  ELSE LET fixed == {k \in Star(w.kind) : Mod3(PointAct(g, k)) = k}
           eta == IF g[3] = 0 /\ g[4] = 0 THEN 1 ELSE w.eta
       IN eta * SumOver(fixed, LAMBDA k : Cos(3, k[1] * g[1] + k[2] * g[2]))
WRep(r, s, tx, ty, g) == UMul(UPow(tx, g[1]), UMul(UPow(ty, g[2]), DRep(r, s, 4, <<g[3], g[4]>>)))

(* ----- isotypic projector, |G| times: sum_g dim conj(chi(g)) U_g ---------------- *)
(* reps: function element -> representation matrix; chr(g): <<re, im>> in millionths.
   Result: set of non-zero entries <<row, col, re, im>> (1-based) *)
IsoTab(reps, dim, chr(_), d) ==
  LET els == DOMAIN reps
      cs == TLCEval([g \in els |-> LET x == chr(g) IN <<dim * x[1], -(dim * x[2])>>])
      col(c) == LET rows == {reps[g][c][1] : g \in els}
                IN [r \in rows |-> CSum({g \in els : reps[g][c][1] = r}, LAMBDA g : TurnBy(reps[g][c][2], cs[g]))]
  IN TLCEval([c \in 1..d |-> TLCEval(col(c))])
(* recorded matrix: m.d columns, m.c[c] = sequence of <<row, re, im>> (1-based, millionths);
   times ord it equals tab within tol per element *)
ColFun(seq) == TLCEval([r \in {seq[k][1] : k \in 1..Len(seq)} |->
                 LET k == CHOOSE k \in 1..Len(seq) : seq[k][1] = r IN <<seq[k][2], seq[k][3]>>])
Close(m, tab, ord, d, tol) ==
  LET at(f, r) == IF r \in DOMAIN f THEN f[r] ELSE CZero
  IN /\ m.d = d /\ Len(m.c) = d
     /\ \A c \in 1..d : LET f == ColFun(m.c[c])
                         IN \A r \in DOMAIN f \cup DOMAIN tab[c] :
                              LET x == at(f, r)
                                  y == at(tab[c], r)
                              IN Abs(ord * x[1] - y[1]) <= tol * ord /\ Abs(ord * x[2] - y[2]) <= tol * ord
IsIdentity(m, tol) == \A c \in 1..m.d : LET f == ColFun(m.c[c])
    IN /\ c \in DOMAIN f /\ Abs(f[c][1] - Unit) <= tol
       /\ \A r \in DOMAIN f : (r # c => Abs(f[r][1]) <= tol) /\ Abs(f[r][2]) <= tol
=============================================================================
