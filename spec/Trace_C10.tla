------------------------------ MODULE Trace_C10 ------------------------------
(* C10: projectors onto the irreducible representations of a symmetry group.
   Each returned matrix P is recorded through its row space P+P and its row products PP+. *)
EXTENDS Groups, TraceBase

Tol == 30
Orthonormal(o) == \A k \in 1..Len(o.g) : IsIdentity(o.h[k], Tol)
TotalRank(o) == SumSeq([k \in 1..Len(o.g) |-> o.h[k].d])
Real(x) == <<x, 0>>

(* generic judgement.  irr: sequence of expected irreps in order; tab(k): expected |G| P+P *)
Ordered(e, cnt, tab(_), ord, d) ==
  LET o == e.out IN
  Failing(<< <<"count", Len(o.g) = cnt>>,
             <<"rows-orthonormal", Orthonormal(o)>>,
             <<"rank", TotalRank(o) = d>>,
             <<"subspace", Len(o.g) = cnt => \A k \in 1..cnt : Close(o.g[k], tab(k), ord, d, Tol)>> >>)
Unordered(e, irreps, tab(_), ord, d) ==
  LET o == e.out
      T == TLCEval([w \in irreps |-> tab(w)])
      hit(w) == {k \in 1..Len(o.g) : Close(o.g[k], T[w], ord, d, Tol)}
      H == TLCEval([w \in irreps |-> hit(w)])
  IN Failing(<< <<"count", Len(o.g) = Cardinality(irreps)>>,
                <<"rows-orthonormal", Orthonormal(o)>>,
                <<"rank", TotalRank(o) = d>>,
                <<"subspace", (\A w \in irreps : H[w] # {}) /\ UNION {H[w] : w \in irreps} = 1..Len(o.g)>> >>)

VZn(e) ==
  LET n == e.inp.n
      u == e.inp.u
      d == Len(u)
      pw == TLCEval([l \in 0..(n - 1) |-> UPow(u, l)])
  IN IF ~IsRep1(u, n) THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Ordered(e, n, LAMBDA k : IsoTab(pw, 1, LAMBDA l : ZnChar(n, k - 1, l), d), n, d)
          \cup Failing(<< <<"wave-vectors", e.out.ks = [k \in 1..n |-> k - 1]>> >>)

VT2(e) ==
  LET i == e.inp
      d == Len(i.u1)
      o == e.out
      els == (0..(i.n1 - 1)) \X (0..(i.n2 - 1))
      reps == TLCEval([g \in els |-> UMul(UPow(i.u1, g[1]), UPow(i.u2, g[2]))])
      chr(k1, k2, g) == LET a == ZnChar(i.n1, k1, g[1])
                            b == ZnChar(i.n2, k2, g[2])
                            m(x) == RoundHalfUp(x, 1000)
                        IN CMul(<<m(a[1]), m(a[2])>>, <<m(b[1]), m(b[2])>>)
      tab(k) == IsoTab(reps, 1, LAMBDA g : chr(o.k1[k], o.k2[k], g), d)
      N == Len(o.g)
  IN IF ~(IsRep1(i.u1, i.n1) /\ IsRep1(i.u2, i.n2) /\ UMul(i.u1, i.u2) = UMul(i.u2, i.u1)) THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"wave-vectors", Len(o.k1) = N /\ Len(o.k2) = N
                           /\ \A k \in 1..N : o.k1[k] \in 0..(i.n1 - 1) /\ o.k2[k] \in 0..(i.n2 - 1)>>,
                     <<"distinct", \A a, b \in 1..N : a # b => <<o.k1[a], o.k2[a]>> # <<o.k1[b], o.k2[b]>> >>,
                     <<"non-empty", \A k \in 1..N : o.h[k].d > 0>>,
                     <<"rows-orthonormal", Orthonormal(o)>>,
                     <<"rank", TotalRank(o) = d>>,
                     <<"subspace", (Len(o.k1) = N /\ Len(o.k2) = N) => \A k \in 1..N : Close(o.g[k], tab(k), i.n1 * i.n2, d, 2000)>> >>)

VDn(e) ==
  LET i == e.inp
      n == i.n
      d == Len(i.r)
      reps == TLCEval([g \in DElems(n) |-> DRep(i.r, i.s, n, g)])
      tab(w) == IsoTab(reps, w.d, LAMBDA g : Real(DChar(n, w, g)), d)
      ord == DOrder(n)
  IN IF ~IsDihedral(i.r, i.s, n) THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE IF ord # <<>> THEN Ordered(e, Len(ord), LAMBDA k : tab(ord[k]), 2 * n, d)
     ELSE Unordered(e, DIrreps(n), tab, 2 * n, d)

VW(e) ==
  LET i == e.inp
      d == Len(i.r)
      good == IsDihedral(i.r, i.s, 4) /\ IsRep1(i.tx, 3) /\ UMul(i.tx, i.ty) = UMul(i.ty, i.tx)
              /\ UMul(i.r, i.tx) = UMul(i.ty, i.r) /\ UMul(i.s, i.ty) = UMul(i.ty, i.s)
      reps == TLCEval([g \in WElems |-> WRep(i.r, i.s, i.tx, i.ty, g)])
  IN IF ~good THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Unordered(e, WIrreps, LAMBDA w : IsoTab(reps, w.d, LAMBDA g : Real(WChar(w, g)), d), 72, d)

(* a caller-supplied table (integer characters) with class sizes *)
VTable(e) ==
  LET i == e.inp
      n == Len(i.t)
      ordr == SumSeq(i.sz)
      rows == \A a, b \in 1..n : SumOver(1..n, LAMBDA c : i.sz[c] * i.t[a][c] * i.t[b][c]) = IF a = b THEN ordr ELSE 0
  IN IF rows THEN (IF e.ok THEN {} ELSE {"raised"}) ELSE (IF e.ok THEN {"must-be-rejected"} ELSE {})

(* a group given by its multiplication table, classes, characters (millionths) and a monomial
   representation.  Usable characters: one row per class, rows orthonormal over the group. *)
VGrp(e) ==
  LET i == e.inp
      n == Len(i.mul)
      nc == Len(i.cls)
      d == Len(i.u[1])
      G == 1..n
      inv == TLCEval([g \in G |-> CHOOSE h \in G : i.mul[g][h] = 1])
      clsOf == TLCEval([g \in G |-> CHOOSE c \in 1..nc : \E k \in 1..Len(i.cls[c]) : i.cls[c][k] = g])
      isRep == \A g, h \in G : UMul(i.u[g], i.u[h]) = i.u[i.mul[g][h]]
      classes == i.cls[1] = <<1>> /\ \A g, h \in G : clsOf[i.mul[i.mul[h][g]][inv[h]]] = clsOf[g]
      k3(z) == <<RoundHalfUp(z[1], 1000), RoundHalfUp(z[2], 1000)>>
      t3 == TLCEval([a \in 1..nc |-> [c \in 1..nc |-> k3(i.t[a][c])]])
      rowdot(a, b) == CSum(1..nc, LAMBDA c : LET z == CMul(t3[a][c], CConj(t3[b][c])) IN <<Len(i.cls[c]) * z[1], Len(i.cls[c]) * z[2]>>)
      near(z, w) == Abs(z[1] - w) <= 4000 * n /\ Abs(z[2]) <= 4000 * n
      rows == Len(i.t) = nc /\ \A a, b \in 1..nc : near(rowdot(a, b), IF a = b THEN 1000000 * n ELSE 0)
      dim(a) == i.t[a][1][1] \div Unit
  IN IF ~rows THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~(isRep /\ classes) THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Ordered(e, nc, LAMBDA a : IsoTab(TLCEval([g \in G |-> i.u[g]]), dim(a), LAMBDA g : i.t[a][clsOf[g]], d), n, d)

V_C10(s, e) == CASE e.op = "zn" -> VZn(e) [] e.op = "t2" -> VT2(e) [] e.op = "dn" -> VDn(e) [] e.op = "w" -> VW(e)
                 [] e.op = "grp" -> VGrp(e) [] e.op = "table" -> VTable(e) [] OTHER -> {"unknown-operation"}
A_C10(s, e) == s
S_C10 == 0
=============================================================================
