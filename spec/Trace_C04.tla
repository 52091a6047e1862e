------------------------------ MODULE Trace_C04 ------------------------------
(* C04: coordinate transformations, the site permutations they induce, and cycles. *)
EXTENDS Transform, TraceBase

(* a transformation acting on raw points; the output is multiplied by Den *)
VXform(e) ==
  LET i == e.inp
      noaxis == i.t.k = "refl" /\ i.t.u = VZero
  IN IF noaxis THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<<
        <<"shape", Len(e.out.v) = Len(i.v)>>,
        <<"image", Len(e.out.v) = Len(i.v) =>
                   \A k \in 1..Len(i.v) : e.out.v[k] = VScale(e.out.d \div Den(i.qy, i.t), Image(i.qy, i.t, i.v[k]))>>,
        <<"denominator", e.out.d % Den(i.qy, i.t) = 0>>,
        <<"pure", e.out.pure>> >>)

Perm(i) == IF i.poly = 0 THEN SitePerm(i.L, i.sites, i.t)
           ELSE \* vertices of a regular polygon in clockwise order from the top vertex
                IF i.t.k = "rot" THEN [k \in 1..i.poly |-> (IF i.t.n = i.poly THEN (k - 2) % i.poly ELSE k - 1) + 1]
                ELSE IF i.t.k = "refl" THEN [k \in 1..i.poly |-> ((-(k - 1)) % i.poly) + 1]
                ELSE [k \in 1..i.poly |-> ((k - 1 + (i.poly \div 2)) % i.poly) + 1]
(* is every image a site?  an odd polygon has no inversion *)
Closed(i) == IF i.poly = 0 THEN IsClosed(i.L, i.sites, i.t)
             ELSE i.t.k = "inv" => i.poly % 2 = 0

VSites(e) ==
  LET i == e.inp
      n == Len(i.labels)
  IN IF ~Closed(i) THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE LET p == Perm(i)
          IN Failing(<<
              <<"initial-labels", e.out.a = i.labels>>,
              <<"shape", Len(e.out.b) = n>>,
              <<"permutation", Len(e.out.b) = n => \A k \in 1..n : e.out.b[k] = i.labels[p[k]]>>,
              <<"pure", e.out.pure>> >>)

VCycles(e) ==
  LET i == e.inp
  IN IF ~Closed(i) THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE LET p == Perm(i)
              n == Len(p)
          IN IF ~IsBij(p) THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
             ELSE IF ~e.ok THEN {"raised"}
             ELSE IF ~e.exact THEN {"off-grid"}
             ELSE LET c == e.out.c
                  IN Failing(<<
                      <<"partition", LET all == FlattenSeq(c) IN Len(all) = n /\ Rng(all) = 0..(n - 1)>>,
                      <<"follow-map", \A a \in 1..Len(c) : \A k \in 1..Len(c[a]) :
                            c[a][k] \in 0..(n - 1) /\ p[c[a][k] + 1] = c[a][(k % Len(c[a])) + 1] + 1>>,
                      <<"cycle-list", [a \in 1..Len(c) |-> [k \in 1..Len(c[a]) |-> c[a][k] + 1]] = Cycles(p)>>,
                      <<"order", e.out.n = PermOrder(p)>>,
                      <<"pure", e.out.pure>> >>)

V_C04(s, e) == CASE e.op = "xform" -> VXform(e) [] e.op = "tsites" -> VSites(e)
                 [] e.op = "cycles" -> VCycles(e) [] OTHER -> {"unknown-operation"}
A_C04(s, e) == s
S_C04 == 0
=============================================================================
