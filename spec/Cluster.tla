------------------------------- MODULE Cluster -------------------------------
(* Connected clusters of the square lattice (linked-cluster expansions).  A site is
   <<x, y>>, a cluster a non-empty finite set of sites. *)
EXTENDS Base

Nbrs(p) == {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>}
Linked(p, q) == q \in Nbrs(p)
RECURSIVE Flood(_, _)
Flood(c, seen) == LET more == {p \in c \ seen : \E q \in seen : Linked(p, q)}
                  IN IF more = {} THEN seen ELSE Flood(c, seen \cup more)
Connected(c) == c # {} /\ Flood(c, {CHOOSE p \in c : TRUE}) = c

(* one-site growths *)
Boundary(c) == (UNION {Nbrs(p) : p \in c}) \ c
(* growth along a given set of moves only *)
BoundaryBy(c, mv) == {<<p[1] + v[1], p[2] + v[2]>> : p \in c, v \in mv} \ c

(* shape up to translation *)
MinX(c) == Min({p[1] : p \in c})
MinY(c) == Min({p[2] : p \in c})
Canon(c) == LET a == MinX(c)
                b == MinY(c) IN {<<p[1] - a, p[2] - b>> : p \in c}
(* the eight symmetries of the square lattice *)
D4 == {<<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<1, 0, 0, -1>>, <<-1, 0, 0, -1>>,
       <<0, 1, 1, 0>>, <<0, -1, 1, 0>>, <<0, 1, -1, 0>>, <<0, -1, -1, 0>>}
Image(g, c) == {<<g[1] * p[1] + g[2] * p[2], g[3] * p[1] + g[4] * p[2]>> : p \in c}
Orbit(c) == {Canon(Image(g, c)) : g \in D4}
(* the class of a cluster: its shape, or its orbit of shapes *)
Class(c, sym) == IF sym THEN Orbit(c) ELSE {Canon(c)}
Mult(c, sym) == IF sym THEN Cardinality(Orbit(c)) ELSE 1

(* all shapes with n sites, up to translation *)
Moves == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
GrowBy(F, mv) == UNION {{Canon(c \cup {p}) : p \in BoundaryBy(c, mv)} : c \in F}
RECURSIVE ShapesBy(_, _)
ShapesBy(n, mv) == IF n = 1 THEN {{<<0, 0>>}} ELSE GrowBy(ShapesBy(n - 1, mv), mv)
Shapes(n) == ShapesBy(n, Moves)
Classes(F, sym) == {Class(c, sym) : c \in F}

(* all connected subsets of a cluster with k sites *)
RECURSIVE SubsOf(_, _)
SubsOf(P, k) == IF k = 1 THEN {{p} : p \in P}
                ELSE LET prev == TLCEval(SubsOf(P, k - 1)) IN UNION {{s \cup {p} : p \in Boundary(s) \cap P} : s \in prev}
RECURSIVE AllSubsR(_, _, _)
AllSubsR(P, layer, acc) == IF layer = {} THEN acc
                           ELSE AllSubsR(P, TLCEval(UNION {{s \cup {p} : p \in Boundary(s) \cap P} : s \in layer}), acc \cup layer)
AllSubs(P) == AllSubsR(P, {{p} : p \in P}, {})
=============================================================================
