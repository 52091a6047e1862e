------------------------------ MODULE Trace_C03 ------------------------------
(* C03: histories of relabelling, sorting, copying and comparing geometries.
   st.objs[name] is the specification's value of the live object `name`. *)
EXTENDS GeometryLife, TraceBase

Snap(o) == [sites |-> o.sites, adj |-> o.adj, dx |-> o.dx, dy |-> o.dy, ph |-> o.ph, lat |-> o.lat]
WellShaped(o, n) == Len(o.sites) = n /\ HasShape(o.adj, n, n) /\ HasShape(o.dx, n, n) /\ HasShape(o.dy, n, n) /\ HasShape(o.ph, n, n)
Expected(s, e) ==
  LET i == e.inp IN
  CASE e.op = "new" -> [s EXCEPT ![i.obj] = Snap(e.out.snap[i.obj])]
    [] e.op = "permute" -> IF i.valid THEN [s EXCEPT ![i.obj] = ApplyPerm(@, i.perm)] ELSE s
    [] e.op = "copy" -> [s EXCEPT ![i.dst] = s[i.src]]
    [] OTHER -> s
Names == {"A", "B", "C"}
SnapMatches(want, e) == \A nm \in {n \in Names : want[n].sites # <<>>} : Snap(e.out.snap[nm]) = want[nm]
SnapFails(want, e) ==
  LET live == {n \in Names : want[n].sites # <<>>}
      shp == \A n \in live : WellShaped(e.out.snap[n], Len(want[n].sites))
  IN IF ~e.exact THEN {"off-grid"} ELSE IF ~shp THEN {"shape"}
     ELSE Failing(<< <<"positions", \A n \in live : e.out.snap[n].sites = want[n].sites>>,
                     <<"adjacency", \A n \in live : e.out.snap[n].adj = want[n].adj>>,
                     <<"distances", \A n \in live : e.out.snap[n].dx = want[n].dx /\ e.out.snap[n].dy = want[n].dy>>,
                     <<"phases", \A n \in live : e.out.snap[n].ph = want[n].ph>> >>)

V_C03(s, e) ==
  LET i == e.inp IN
  CASE e.op = "new" -> IF ~e.ok THEN {"raised"} ELSE {}
    [] e.op = "permute" ->
         (IF i.valid THEN (IF e.ok THEN {} ELSE {"raised"}) ELSE (IF e.out.rejected THEN {} ELSE {"must-be-rejected"}))
         \cup (IF e.ok THEN SnapFails(Expected(s, e), e) ELSE {})
    [] e.op = "copy" -> IF ~e.ok THEN {"raised"} ELSE SnapFails(Expected(s, e), e)
    [] e.op = "sort" ->
         IF i.mode \notin SortModes THEN (IF e.out.rejected THEN {} ELSE {"must-be-rejected"})
         ELSE IF ~e.ok \/ e.out.rejected THEN {"raised"}
         ELSE (IF ~IsPermSeq(e.out.perm, Len(s[i.obj].sites)) THEN {"not-a-permutation"}
               ELSE IF ~SiteSorted(s[i.obj], i.mode, e.out.perm) THEN {"not-sorted"} ELSE {})
              \cup SnapFails(s, e)
    [] e.op = "compare" ->
         IF ~e.ok THEN {"raised"}
         ELSE LET g == s[i.a]
                  h == s[i.b]
              IN Failing(<< <<"eq", e.out.eq = SameGeom(g, h)>>, <<"ne", e.out.ne = ~SameGeom(g, h)>>,
                            <<"eq-symmetric", e.out.eqr = e.out.eq>>,
                            \* irrational positions: symmetric relabellings may differ by rounding
                            <<"isequal-adjacency", IF e.inp.irr THEN (e.out.adj => SameAdjacency(g, h)) /\ (g = h => e.out.adj)
                                                   ELSE e.out.adj = SameAdjacency(g, h)>> >>) \cup SnapFails(s, e)
    [] e.op = "com" -> IF ~e.ok THEN {"raised"}
         ELSE LET n == Len(s[i.obj].sites)
                  tot(k) == SumOver(1..n, LAMBDA j : s[i.obj].sites[j][k])
              IN Failing(<< <<"centre-of-mass", e.exact /\ e.out.cx = tot(1) /\ e.out.cy = tot(2)>> >>)
    [] OTHER -> {"unknown-operation"}
A_C03(s, e) == IF e.op = "new" /\ ~e.ok THEN s ELSE Expected(s, e)
Nobody == [sites |-> <<>>, adj |-> <<>>, dx |-> <<>>, dy |-> <<>>, ph |-> <<>>, lat |-> 0]
S_C03 == [n \in Names |-> Nobody]
=============================================================================
