------------------------------ MODULE Trace_C01 ------------------------------
(* C01: site enumeration of periodic cells and reduction of vectors. *)
EXTENDS Lattice, TraceBase

SiteClauses(L, s) ==
  << <<"count", Len(s) = CellCount(L)>>,
     <<"in-cell", \A i \in 1..Len(s) : InCell(L, s[i])>>,
     <<"on-lattice", \A i \in 1..Len(s) : IsSite(L, s[i])>>,
     <<"distinct", Cardinality(Rng(s)) = Len(s)>>,
     <<"ordered", LexSorted(s)>> >>

VCtor(e) ==
  LET i == e.inp IN
  IF ~NamedAllowed(i.kind, i.n, i.m, i.o1, i.o2)
  THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
  ELSE IF ~e.ok THEN {"raised"}
  ELSE IF ~e.exact THEN {"off-grid"}
  ELSE LET L == Named(i.kind, i.n, i.m)
           B == WithBC(L, i.o1, i.o2)
       IN Failing(SiteClauses(L, e.out.sites) \o
            << <<"nsites", e.out.nsites = CellCount(L)>>,
               <<"kept-periods", e.out.p1 = B.p1 /\ e.out.p2 = B.p2>>,
               <<"kept-vectors", e.out.l1 = L.l1 /\ e.out.l2 = L.l2>> >>)

VLattice(e) ==
  LET i == e.inp
      L == i.L
  IN IF ~ValidLattice(L) THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(SiteClauses(L, e.out.sites) \o << <<"nsites", e.out.nsites = CellCount(L)>> >>)

VReduce(e) ==
  LET i == e.inp
      L == [Blank EXCEPT !.p1 = i.p1, !.p2 = i.p2, !.qx = i.qx, !.qy = i.qy]
      vs == i.vs
      o == e.out
      n == Len(vs)
  IN IF i.mode \notin {"positive", "centered"} THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF ~(Len(o.r) = n /\ Len(o.n1) = n /\ Len(o.n2) = n) THEN {"shape"}
     ELSE Failing(<<
        <<"multiples", \A k \in 1..n : VAdd(o.r[k], VAdd(VScale(o.n1[k], L.p1), VScale(o.n2[k], L.p2))) = vs[k]>>,
        <<"cell", \A k \in 1..n : IF i.mode = "positive" THEN InCell(L, o.r[k]) ELSE InCentered(L, o.r[k])>>,
        <<"representative", \A k \in 1..n : o.r[k] = (IF i.mode = "positive" THEN ReduceP(L, vs[k]) ELSE ReduceC(L, vs[k]))>>,
        <<"pure", o.pure>> >>)

VRecip(e) ==
  LET i == e.inp
      o == e.out
      d == i.d   \* output scaled by d
      dot(a, b) == a[1] * b[1] + a[2] * b[2]
  IN IF i.a # VZero /\ i.b # VZero /\ Cross(i.a, i.b) = 0 THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<<
        <<"dual-11", dot(i.a, o.r1) = IF i.a = VZero THEN 0 ELSE d>>,
        <<"dual-12", dot(i.a, o.r2) = 0 \/ i.a = VZero \/ i.b = VZero>>,
        <<"dual-21", dot(i.b, o.r1) = 0 \/ i.a = VZero \/ i.b = VZero>>,
        <<"dual-22", dot(i.b, o.r2) = IF i.b = VZero THEN 0 ELSE d>>,
        <<"zero-vector", (i.a = VZero => o.r1 = VZero) /\ (i.b = VZero => o.r2 = VZero)>>,
        <<"along-single", (i.a = VZero => Cross(i.b, o.r2) = 0) /\ (i.b = VZero => Cross(i.a, o.r1) = 0)>> >>)

V_C01(s, e) == CASE e.op = "ctor" -> VCtor(e) [] e.op = "lattice" -> VLattice(e)
                 [] e.op = "reduce" -> VReduce(e) [] e.op = "recip" -> VRecip(e)
                 [] OTHER -> {"unknown-operation"}
A_C01(s, e) == s
S_C01 == 0
=============================================================================
