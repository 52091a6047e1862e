----------------------------- MODULE Transform -----------------------------
(* Rigid maps of the plane acting on sites of a lattice or of a finite set of points.

   A map is a record [k, n, u, w, c, cd]:
     k = "rot"  : rotation by 1/n turn about c/cd          (n in 1,2,4 on a square grid, 1,2,3,6 when qy = 3)
     k = "refl" : mirror whose axis is parallel to u and passes through c/cd
     k = "inv"  : point inversion through c/cd
     k = "trans": translation by w/cd
   Linear parts are <<M, den>> with an integer matrix M. *)
EXTENDS Lattice

RotLin(qy, n) ==
  CASE n = 1 -> <<<<<<1, 0>>, <<0, 1>>>>, 1>>
    [] n = 2 -> <<<<<<-1, 0>>, <<0, -1>>>>, 1>>
    [] n = 4 /\ qy = 1 -> <<<<<<0, -1>>, <<1, 0>>>>, 1>>
    [] n = 3 /\ qy = 3 -> <<<<<<-1, -3>>, <<1, -1>>>>, 2>>
    [] n = 6 /\ qy = 3 -> <<<<<<1, -3>>, <<1, 1>>>>, 2>>
    [] n = -4 /\ qy = 1 -> <<<<<<0, 1>>, <<-1, 0>>>>, 1>>
    [] n = -3 /\ qy = 3 -> <<<<<<-1, 3>>, <<-1, -1>>>>, 2>>
    [] n = -6 /\ qy = 3 -> <<<<<<1, 3>>, <<-1, 1>>>>, 2>>
ReflLin(qy, u) ==
  LET uu == u[1] * u[1] + qy * u[2] * u[2]
  IN <<<<<<2 * u[1] * u[1] - uu, 2 * qy * u[1] * u[2]>>, <<2 * u[1] * u[2], 2 * qy * u[2] * u[2] - uu>>>>, uu>>
Lin(qy, t) == CASE t.k = "rot" -> RotLin(qy, t.n) [] t.k = "refl" -> ReflLin(qy, t.u)
                [] t.k = "inv" -> RotLin(qy, 2) [] OTHER -> RotLin(qy, 1)
MatVec(M, v) == <<M[1][1] * v[1] + M[1][2] * v[2], M[2][1] * v[1] + M[2][2] * v[2]>>

(* Den(t) * image of v, an integer vector *)
Den(qy, t) == IF t.k = "trans" THEN t.cd ELSE Lin(qy, t)[2] * t.cd
Image(qy, t, v) ==
  IF t.k = "trans" THEN VAdd(VScale(t.cd, v), t.w)
  ELSE LET A == Lin(qy, t)
       IN VAdd(MatVec(A[1], VSub(VScale(t.cd, v), t.c)), VScale(A[2], t.c))

(* sites: a sequence of points.  The site the image of point i coincides with, modulo
   the periods of L; 0 when there is none. *)
HitBy(L, sites, t, i) ==
  LET d == Den(L.qy, t)
      w == Image(L.qy, t, sites[i])
      dL == [L EXCEPT !.p1 = VScale(d, @), !.p2 = VScale(d, @)]
      hits == {j \in 1..Len(sites) : Equivalent(dL, w, VScale(d, sites[j]))}
  IN IF hits = {} THEN 0 ELSE Min(hits)
SitePerm(L, sites, t) == [i \in 1..Len(sites) |-> HitBy(L, sites, t, i)]
IsClosed(L, sites, t) == \A i \in 1..Len(sites) : HitBy(L, sites, t, i) # 0

(* permutations p: 1..n -> 1..n *)
Compose(p, q) == [i \in DOMAIN q |-> p[q[i]]]
IsId(p) == \A i \in DOMAIN p : p[i] = i
RECURSIVE PermPow(_, _)
PermPow(p, k) == IF k = 0 THEN [i \in DOMAIN p |-> i] ELSE Compose(p, PermPow(p, k - 1))
IsBij(p) == {p[i] : i \in DOMAIN p} = DOMAIN p
RECURSIVE OrderFrom(_, _, _)
OrderFrom(p, q, k) == IF IsId(q) THEN k ELSE OrderFrom(p, Compose(p, q), k + 1)
PermOrder(p) == OrderFrom(p, p, 1)
RECURSIVE OrbitFrom(_, _, _)
OrbitFrom(p, s, x) == IF p[x] = s THEN <<x>> ELSE <<x>> \o OrbitFrom(p, s, p[x])
Orbit(p, s) == OrbitFrom(p, s, s)
(* the cycles, each starting from its smallest element, in order of that element *)
Cycles(p) == LET n == Len(p)
                 RECURSIVE Go(_, _)
                 Go(i, seen) == IF i > n THEN <<>>
                                ELSE IF i \in seen THEN Go(i + 1, seen)
                                ELSE LET o == Orbit(p, i) IN <<o>> \o Go(i + 1, seen \cup Rng(o))
             IN Go(1, {})
(* permutation described by a list of disjoint cycles (0-based entries), on 0..n-1; result 1-based *)
FromCycles(cs, n) == [i \in 1..n |->
    LET hit == {c \in 1..Len(cs) : \E k \in 1..Len(cs[c]) : cs[c][k] = i - 1}
    IN IF hit = {} THEN i
       ELSE LET c == cs[CHOOSE x \in hit : TRUE]
                k == CHOOSE x \in 1..Len(c) : c[x] = i - 1
            IN c[(k % Len(c)) + 1] + 1]
=============================================================================
