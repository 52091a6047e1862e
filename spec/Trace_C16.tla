------------------------------ MODULE Trace_C16 ------------------------------
(* C16: enumeration of the clusters of the infinite lattice. *)
EXTENDS Cluster, TraceBase

AsSet(c) == Rng(c)
Sound(o) == \A k \in 1..Len(o) : Cardinality(AsSet(o[k].s)) = Len(o[k].s)      \* no site listed twice
(* recorded neighbours are exactly the sites at unit distance *)
AdjOk(o) == \A k \in 1..Len(o) : o[k].a = [i \in 1..Len(o[k].s) |-> [j \in 1..Len(o[k].s) |-> IF Linked(o[k].s[i], o[k].s[j]) THEN 1 ELSE 0]]
(* list o of clusters: exactly one member of every class of F *)
OnePerClass(o, F, sym) ==
  LET cl == TLCEval([k \in 1..Len(o) |-> Class(AsSet(o[k].s), sym)])
      want == TLCEval(Classes(F, sym))
  IN Rng(cl) = want /\ Len(o) = Cardinality(want)
MultOk(o, m, sym) == Len(m) = Len(o) /\ \A k \in 1..Len(o) : m[k] = Mult(AsSet(o[k].s), sym)

V_C16(s, e) ==
  LET i == e.inp
      o == e.out
      mv == Rng(i.mv)
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "grow" ->
                 LET F == IF i.none THEN {{<<0, 0>>}} ELSE GrowBy({Canon(AsSet(c)) : c \in Rng(i.cs)}, mv)
                 IN Failing(<< <<"sites", Sound(o.cs)>>, <<"adjacency", AdjOk(o.cs)>>, <<"clusters", OnePerClass(o.cs, F, i.sym)>>,
                               <<"multiplicities", MultOk(o.cs, o.mult, i.sym)>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "all" ->
                 LET N == i.n
                     edge == o.edge
                     okE == Len(edge) = N + 1 /\ edge[1] = 0 /\ edge[N + 1] = Len(o.cs) /\ \A k \in 1..N : edge[k] <= edge[k + 1]
                 IN IF ~okE THEN {"order-indices"}
                    ELSE Failing(<< <<"sites", Sound(o.cs)>>, <<"adjacency", AdjOk(o.cs)>>,
                                    <<"clusters", \A k \in 1..N : OnePerClass(SubSeq(o.cs, edge[k] + 1, edge[k + 1]), ShapesBy(k, mv), i.sym)>>,
                                    <<"multiplicities", MultOk(o.cs, o.mult, i.sym)>> >>)
            [] e.op = "partners" ->
                 LET cl == [k \in 1..Len(o.cs) |-> Canon(AsSet(o.cs[k].s))]
                 IN Failing(<< <<"sites", Sound(o.cs)>>, <<"adjacency", AdjOk(o.cs)>>,
                               <<"orbit", Rng(cl) = Orbit(AsSet(i.cs[1])) /\ Len(cl) = Cardinality(Rng(cl))>>,
                               <<"argument-modified", o.pure>> >>)
            [] OTHER -> {"unknown-operation"}
A_C16(s, e) == s
S_C16 == 0
=============================================================================
