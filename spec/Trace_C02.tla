------------------------------ MODULE Trace_C02 ------------------------------
(* C02: separations, neighbours and boundary twists of every geometry. *)
EXTENDS Lattice, TraceBase

Sep(o, i, j) == <<o.dx[i][j], o.dy[i][j]>>

(* geometries with an underlying lattice; the site positions are those reported *)
VGeom(e) ==
  LET i == e.inp
      L == i.L
      o == e.out
      s == o.sites
      n == Len(s)
      S == 1..n
  IN IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF ~(HasShape(o.dx, n, n) /\ HasShape(o.dy, n, n) /\ HasShape(o.adj, n, n) /\ HasShape(o.ph, n, n) /\ o.nsites = n)
          THEN {"shape"}
     ELSE Failing(<<
        <<"antisymmetric", \A a, b \in S : Sep(o, a, b) = VScale(-1, Sep(o, b, a))>>,
        <<"congruent", \A a, b \in S : Equivalent(L, Sep(o, a, b), VSub(s[a], s[b]))>>,
        <<"closest-image", \A a, b \in S : IF Reduced(L) THEN Norm2(L, Sep(o, a, b)) = MinImage2(L, VSub(s[a], s[b]))
                                            ELSE Norm2(L, Sep(o, a, b)) <= Norm2(L, ReduceC(L, VSub(s[a], s[b])))>>,
        <<"adjacency", \A a, b \in S : o.adj[a][b] = IF Norm2(L, Sep(o, a, b)) = L.unit THEN 1 ELSE 0>>,
        <<"adjacent-image", Reduced(L) => \A a, b \in S : (a # b) => (o.adj[a][b] = 1 <=> Adjacent(L, s[a], s[b]))>>,
        <<"phase", i.ph => \A a, b \in S : o.ph[a][b] = PhaseUnits(L, Sep(o, a, b), i.T)>>,
        <<"unit-modulus", o.unimod>> >>)

(* arbitrary clusters: plain differences, neighbours one grid step apart, unless the
   caller supplied the matrices *)
VFree(e) ==
  LET i == e.inp
      o == e.out
      s == i.sites
      n == Len(s)
      S == 1..n
      wantAdj(a, b) == LET d == VSub(s[a], s[b])
                       IN IF (Abs(d[1]) = 2 /\ d[2] = 0) \/ (d[1] = 0 /\ Abs(d[2]) = 2) THEN 1 ELSE 0
      okAdj == i.hasadj => /\ HasShape(i.adj, n, n)
                           /\ \A a, b \in S : i.adj[a][b] \in {0, 1} /\ i.adj[a][b] = i.adj[b][a]
      okPh == i.hasph => /\ HasShape(i.phr, n, n) /\ i.phmod
                         /\ \A a, b \in S : (i.phr[a][b] + i.phr[b][a]) % i.T = 0
  IN IF ~(okAdj /\ okPh) THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF ~(HasShape(o.dx, n, n) /\ HasShape(o.dy, n, n) /\ HasShape(o.adj, n, n) /\ HasShape(o.ph, n, n) /\ o.nsites = n)
          THEN {"shape"}
     ELSE Failing(<<
        <<"positions", o.sites = s>>,
        <<"difference", \A a, b \in S : Sep(o, a, b) = VSub(s[a], s[b])>>,
        <<"adjacency", \A a, b \in S : o.adj[a][b] = IF i.hasadj THEN i.adj[a][b] ELSE wantAdj(a, b)>>,
        <<"phase", \A a, b \in S : o.ph[a][b] = IF i.hasph THEN i.phr[a][b] ELSE 0>>,
        <<"unit-modulus", o.unimod>> >>)

(* separations counted in lattice vectors: the remainder lies in the cell around zero *)
Half(f) == 2 * Abs(f[1]) <= Abs(f[2])
VCounts(e) ==
  LET L == e.inp.L
      o == e.out
      s == e.inp.sites
      n == Len(s)
      S == 1..n
      U == [L EXCEPT !.p1 = L.l1, !.p2 = L.l2]
      left(a, b) == VSub(Sep(o, a, b), VAdd(VScale(o.n1[a][b], L.l1), VScale(o.n2[a][b], L.l2)))
  IN IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF ~(HasShape(o.dx, n, n) /\ HasShape(o.dy, n, n) /\ HasShape(o.n1, n, n) /\ HasShape(o.n2, n, n)) THEN {"shape"}
     ELSE Failing(<<
        <<"congruent", \A a, b \in S : Equivalent(L, Sep(o, a, b), VSub(s[a], s[b]))>>,
        <<"counts-antisymmetric", \A a, b \in S : o.n1[a][b] = -o.n1[b][a] /\ o.n2[a][b] = -o.n2[b][a]>>,
        <<"counts", \A a, b \in S : Half(Frac1(U, left(a, b))) /\ Half(Frac2(U, left(a, b)))>> >>)

(* regular polygons: a ring with unit sides; squared distances in 1/10^4 *)
VPoly(e) ==
  LET n == e.inp.n
      o == e.out
      S == 1..n
      ring(a, b) == IF (a - b) % n \in {1, n - 1} THEN 1 ELSE 0
  IN IF ~e.ok THEN {"raised"}
     ELSE IF ~(e.exact /\ HasShape(o.adj, n, n) /\ HasShape(o.d2, n, n)) THEN {"shape"}
     ELSE Failing(<<
        <<"ring", \A a, b \in S : o.adj[a][b] = IF e.inp.hasadj THEN e.inp.adj[a][b] ELSE ring(a, b)>>,
        <<"unit-side", \A a, b \in S : ring(a, b) = 1 => Abs(o.d2[a][b] - 10000) <= 1>>,
        <<"regular", \A a, b \in S : Abs(o.d2[a][b] - o.d2[(a % n) + 1][(b % n) + 1]) <= 1>>,
        <<"not-collapsed", \A a, b \in S : a # b => o.d2[a][b] >= 9999>>,
        <<"centred", Abs(o.cx) <= 1 /\ Abs(o.cy) <= 1>> >>)

V_C02(s, e) == CASE e.op = "geom" -> VGeom(e) [] e.op = "free" -> VFree(e) [] e.op = "poly" -> VPoly(e) [] e.op = "counts" -> VCounts(e)
                 [] OTHER -> {"unknown-operation"}
A_C02(s, e) == s
S_C02 == 0
=============================================================================
