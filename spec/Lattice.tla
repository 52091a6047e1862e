------------------------------ MODULE Lattice ------------------------------
(* Two-dimensional lattices in integer coordinates.

   A point is a pair <<X, Y>> on an integer grid; its squared length is
   (qx*X^2 + qy*Y^2)/unit (square lattices: X = 2x, Y = 2y, qx = qy = 1, unit = 4;
   triangular and hexagonal: X = 2x, Y = 2y/sqrt(3), qx = 1, qy = 3, unit = 4).
   A lattice is a record
     [l1, l2, basis, p1, p2, qx, qy, unit, f1, f2, fd]
   with lattice vectors l1, l2, periodicity vectors p1, p2 (<<0,0>> = open), and
   boundary twists f1/fd, f2/fd measured in full turns. *)
EXTENDS Base

VAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
VScale(k, a) == <<k * a[1], k * a[2]>>
VZero == <<0, 0>>
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
DotQ(L, a, b) == L.qx * a[1] * b[1] + L.qy * a[2] * b[2]
Norm2(L, a) == DotQ(L, a, a)

(* coordinate of v along p1 (resp. p2), as a fraction <<num, den>>.  When only one
   periodicity vector is present the coordinate is the orthogonal projection. *)
Frac1(L, v) == IF L.p1 = VZero THEN <<0, 1>>
               ELSE IF L.p2 = VZero THEN <<DotQ(L, L.p1, v), Norm2(L, L.p1)>>
               ELSE <<Cross(v, L.p2), Cross(L.p1, L.p2)>>
Frac2(L, v) == IF L.p2 = VZero THEN <<0, 1>>
               ELSE IF L.p1 = VZero THEN <<DotQ(L, L.p2, v), Norm2(L, L.p2)>>
               ELSE <<Cross(L.p1, v), Cross(L.p1, L.p2)>>

(* number of periodicity vectors to subtract *)
NumP(L, v) == <<FloorDiv(Frac1(L, v)[1], Frac1(L, v)[2]), FloorDiv(Frac2(L, v)[1], Frac2(L, v)[2])>>
NumC(L, v) == <<RoundHalfUp(Frac1(L, v)[1], Frac1(L, v)[2]), RoundHalfUp(Frac2(L, v)[1], Frac2(L, v)[2])>>
ShiftBy(L, v, n) == VSub(v, VAdd(VScale(n[1], L.p1), VScale(n[2], L.p2)))
ReduceP(L, v) == ShiftBy(L, v, NumP(L, v))
ReduceC(L, v) == ShiftBy(L, v, NumC(L, v))

(* 0 <= num/den < 1   and   -1/2 <= num/den < 1/2 *)
In01(f) == FloorDiv(f[1], f[2]) = 0
InHalf(f) == RoundHalfUp(f[1], f[2]) = 0
InCell(L, v) == In01(Frac1(L, v)) /\ In01(Frac2(L, v))
InCentered(L, v) == InHalf(Frac1(L, v)) /\ InHalf(Frac2(L, v))

(* v = a*w1 + b*w2 with integers a, b;  w1, w2 independent *)
Divides(d, n) == n % Abs(d) = 0
InSpan(w1, w2, v) == LET d == Cross(w1, w2) IN Divides(d, Cross(v, w2)) /\ Divides(d, Cross(w1, v))
(* the same along a single vector *)
InSpan1(w, v) == Cross(w, v) = 0 /\ (IF w[1] # 0 THEN Divides(w[1], v[1]) /\ v[2] = (v[1] \div w[1]) * w[2]
                                     ELSE Divides(w[2], v[2]))
InPeriod(L, v) == IF L.p1 = VZero /\ L.p2 = VZero THEN v = VZero
                  ELSE IF L.p2 = VZero THEN InSpan1(L.p1, v)
                  ELSE IF L.p1 = VZero THEN InSpan1(L.p2, v)
                  ELSE InSpan(L.p1, L.p2, v)
Equivalent(L, v, w) == InPeriod(L, VSub(v, w))
IsSite(L, v) == \E k \in 1..Len(L.basis) : InSpan(L.l1, L.l2, VSub(v, L.basis[k]))

(* which lattice descriptions a user may ask for *)
ValidVectors(L) == Cross(L.l1, L.l2) # 0
ValidPeriods(L) == /\ (L.p1 # VZero /\ L.p2 # VZero) => Cross(L.p1, L.p2) # 0
                   /\ ValidVectors(L) => (InSpan(L.l1, L.l2, L.p1) /\ InSpan(L.l1, L.l2, L.p2))
ValidLattice(L) == ValidVectors(L) /\ ValidPeriods(L)

(* number of lattice sites in one periodicity cell (both vectors non-zero) *)
CellIndex(L) == Abs(Cross(L.p1, L.p2)) \div Abs(Cross(L.l1, L.l2))
DistinctBasis(L) == Cardinality({b \in 1..Len(L.basis) :
    \A a \in 1..(b - 1) : ~InSpan(L.l1, L.l2, VSub(L.basis[a], L.basis[b]))})
CellCount(L) == CellIndex(L) * DistinctBasis(L)
(* the sites themselves, by exhaustion *)
CellSites(L) == LET D == CellIndex(L)
                IN {ReduceP(L, VAdd(L.basis[k], VAdd(VScale(a, L.l1), VScale(b, L.l2)))) :
                        a \in 0..(D - 1), b \in 0..(D - 1), k \in 1..Len(L.basis)}
LexLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LexSorted(s) == \A i \in 1..(Len(s) - 1) : LexLess(s[i], s[i + 1])

Open1(L) == [L EXCEPT !.p1 = VZero]
Open2(L) == [L EXCEPT !.p2 = VZero]
WithBC(L, o1, o2) == [L EXCEPT !.p1 = IF o1 THEN VZero ELSE @, !.p2 = IF o2 THEN VZero ELSE @]

(* the named constructors *)
Sq(l) == [l EXCEPT !.qx = 1, !.qy = 1, !.unit = 4]
Blank == [l1 |-> VZero, l2 |-> VZero, basis |-> <<VZero>>, p1 |-> VZero, p2 |-> VZero,
          qx |-> 1, qy |-> 1, unit |-> 4, f1 |-> 0, f2 |-> 0, fd |-> 1]
SquareL(n, m) == [Blank EXCEPT !.l1 = <<2, 0>>, !.l2 = <<0, 2>>, !.p1 = <<2 * n, 0>>, !.p2 = <<0, 2 * m>>]
TiltedL(n, m) == [Blank EXCEPT !.l1 = <<2, 0>>, !.l2 = <<0, 2>>, !.p1 = <<2 * n, 2 * m>>, !.p2 = <<-2 * m, 2 * n>>]
TriangleL(n, m) == [Blank EXCEPT !.l1 = <<2, 0>>, !.l2 = <<1, 1>>, !.p1 = <<2 * n, 0>>, !.p2 = <<m, m>>, !.qy = 3]
HexL(n, m) == [Blank EXCEPT !.l1 = <<3, 1>>, !.l2 = <<3, -1>>, !.basis = <<<<-2, 0>>, <<-1, 1>>>>,
                            !.p1 = <<6 * n, 0>>, !.p2 = <<0, 2 * m>>, !.qy = 3]
Named(kind, n, m) == CASE kind = "square" -> SquareL(n, m) [] kind = "tilted" -> TiltedL(n, m)
                       [] kind = "triangle" -> TriangleL(n, m) [] kind = "hex" -> HexL(n, m)
NamedAllowed(kind, n, m, o1, o2) == kind = "tilted" \/ ((n > 1 \/ o1) /\ (m > 1 \/ o2))

(* --------------------------------------------------------------------- *)
(* separations, neighbours, twists                                        *)
Images(L, v) == {VAdd(v, VAdd(VScale(a, L.p1), VScale(b, L.p2))) : a \in -1..1, b \in -1..1}
(* periodicity vectors are a reduced basis: the closest image is next to the centred one *)
Reduced(L) == LET d == 2 * Abs(DotQ(L, L.p1, L.p2))
              IN (L.p1 # VZero /\ L.p2 # VZero) => d <= Norm2(L, L.p1) /\ d <= Norm2(L, L.p2)
MinImage2(L, v) == LET c == ReduceC(L, v) IN Min({Norm2(L, w) : w \in Images(L, c)})
Adjacent(L, a, b) == MinImage2(L, VSub(a, b)) = L.unit

(* phase of a displacement d: f1*Frac1(d) + f2*Frac2(d) turns, in units of 1/T turn *)
PhaseUnits(L, d, T) == LET a == Frac1(L, d)
                           b == Frac2(L, d)
                           n1 == L.f1 * a[1] * (T \div (L.fd * a[2]))
                           n2 == L.f2 * b[1] * (T \div (L.fd * b[2]))
                       IN (n1 + n2) % T
PhaseGridOK(L, T) == T % Abs(L.fd * Frac1(L, VZero)[2]) = 0 /\ T % Abs(L.fd * Frac2(L, VZero)[2]) = 0
=============================================================================
