------------------------------ MODULE Trace_C17 ------------------------------
(* C17: subclusters, embedding counts and reduction to inequivalent clusters. *)
EXTENDS Cluster, TraceBase

AsSet(c) == Rng(c)
Sound(o) == \A k \in 1..Len(o) : Cardinality(AsSet(o[k].s)) = Len(o[k].s)
AdjOk(o) == \A k \in 1..Len(o) : o[k].a = [i \in 1..Len(o[k].s) |-> [j \in 1..Len(o[k].s) |-> IF Linked(o[k].s[i], o[k].s[j]) THEN 1 ELSE 0]]
Each(o, F) == {AsSet(o[k].s) : k \in 1..Len(o)} = F /\ Len(o) = Cardinality(F)
(* sparse matrix o = [nr, nc, e] against f(row, col), 1-based *)
IsMat(m, nr, nc, f(_, _)) ==
  LET E == {<<x[1], x[2], x[3], x[4]>> : x \in Rng(m.e)}
      ref == {<<a - 1, b - 1, f(a, b), 0>> : a \in 1..nr, b \in 1..nc}
  IN m.nr = nr /\ m.nc = nc /\ E = {x \in ref : x[3] # 0}
Sizes(cs) == [k \in 1..Len(cs) |-> Len(cs[k].s)]
EdgesOk(edge, cs, N) == Len(edge) = N + 1 /\ edge[1] = 0 /\ edge[N + 1] = Len(cs)
                        /\ (\A k \in 1..N : edge[k] <= edge[k + 1])
                        /\ (\A k \in 1..N : \A x \in (edge[k] + 1)..edge[k + 1] : Len(cs[x].s) = k)
(* number of connected subsets of c in class k *)
Embed(c, k, sym) == Cardinality({s \in AllSubs(c) \ {c} : Class(s, sym) = k})
(* embedding counts of all members of a list of classes; counted once per cluster *)
CountOk(m, cs, sym) ==
  LET n == Len(cs)
      st == TLCEval([k \in 1..n |-> AsSet(cs[k].s)])
      cls == TLCEval([k \in 1..n |-> Class(st[k], sym)])
      subs == TLCEval([k \in 1..n |-> TLCEval(LET T == AllSubs(st[k]) \ {st[k]} IN [q \in T |-> Class(q, sym)])])
      f(a, b) == IF Len(cs[b].s) >= Len(cs[a].s) THEN 0 ELSE Cardinality({q \in DOMAIN subs[a] : subs[a][q] = cls[b]})
  IN IsMat(m, n, n, f)

V_C17(s, e) ==
  LET i == e.inp
      o == e.out
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "next" ->
                 LET P == AsSet(i.p)
                     old == [k \in 1..Len(i.cs) |-> AsSet(i.cs[k])]
                     F == IF i.none THEN {{p} : p \in P} ELSE UNION {{c \cup {p} : p \in Boundary(c) \cap P} : c \in Rng(old)}
                 IN Failing(<< <<"sites", Sound(o.cs)>>, <<"adjacency", AdjOk(o.cs)>>, <<"subclusters", Each(o.cs, F)>>,
                               <<"contained", Len(o.in) = Len(o.cs) /\ \A k \in 1..Len(o.cs) : Rng(o.in[k]) = {x - 1 : x \in {y \in 1..Len(old) : old[y] \subseteq AsSet(o.cs[k].s)}}>>,
                               <<"argument-modified", o.pure>> >>)
            [] e.op = "subs" ->
                 LET P == AsSet(i.p)
                     A == TLCEval(AllSubs(P))
                     cs == o.cs
                     st == TLCEval([k \in 1..Len(cs) |-> AsSet(cs[k].s)])
                     below(k) == {x \in 1..Len(cs) : st[x] \subseteq st[k] /\ x # k}
                 IN Failing(<< <<"sites", Sound(cs)>>, <<"adjacency", AdjOk(cs)>>, <<"subclusters", Each(cs, A)>>,
                               <<"orders", \A k \in 1..Len(cs) : Len(cs[k].s) = o.ord[k] /\ (k > 1 => o.ord[k - 1] <= o.ord[k])>>,
                               <<"indices", Len(o.ind) = Len(cs) /\ \A k \in 1..Len(cs) : Rng(o.ind[k]) = {x - 1 : x \in below(k)} /\ Len(o.ind[k]) = Cardinality(below(k))>>,
                               <<"matrix", IsMat(o.m, Len(cs), Len(cs), LAMBDA a, b : IF a # b /\ st[b] \subseteq st[a] THEN 1 ELSE 0)>>,
                               <<"argument-modified", o.pure>> >>)
            [] e.op = "reduced" ->
                 LET P == AsSet(i.p)
                     want == TLCEval({Class(q, i.sym) : q \in AllSubs(P)})
                     have == TLCEval({Class(AsSet(o.cs[k].s), i.sym) : k \in 1..Len(o.cs)})
                 IN IF want # have \/ Len(o.cs) # Cardinality(want) THEN {"clusters"}
                    ELSE Failing(<< <<"sites", Sound(o.cs)>>, <<"order-indices", EdgesOk(o.edge, o.cs, Len(o.edge) - 1)>>,
                                    <<"counts", CountOk(o.m, o.cs, i.sym)>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "with" ->
                 LET want == TLCEval(UNION {Classes(Shapes(k), i.sym) : k \in 1..i.n})
                     have == TLCEval({Class(AsSet(o.cs[k].s), i.sym) : k \in 1..Len(o.cs)})
                 IN IF want # have \/ Len(o.cs) # Cardinality(want) THEN {"clusters"}
                    ELSE Failing(<< <<"sites", Sound(o.cs)>>, <<"order-indices", EdgesOk(o.edge, o.cs, i.n)>>,
                                    <<"multiplicities", \A k \in 1..Len(o.cs) : o.mult[k] = Mult(AsSet(o.cs[k].s), i.sym)>>,
                                    <<"counts", CountOk(o.m, o.cs, i.sym)>> >>)
            [] e.op = "reduce" ->
                 LET all == FlattenSeq(i.orders)
                     cls == TLCEval([k \in 1..Len(all) |-> Class(AsSet(all[k]), i.sym)])
                     red == FlattenSeq(o.cs)
                     rc == TLCEval([k \in 1..Len(red) |-> Class(AsSet(red[k].s), i.sym)])
                     mu == FlattenSeq(o.mult)
                 IN Failing(<< <<"orders", Len(o.cs) = Len(i.orders) /\ \A k \in 1..Len(o.cs) :
                                    {Class(AsSet(x.s), i.sym) : x \in Rng(o.cs[k])} = {Class(AsSet(x), i.sym) : x \in Rng(i.orders[k])}>>,
                               <<"distinct", Cardinality(Rng(rc)) = Len(rc)>>,
                               <<"multiplicities", Len(mu) = Len(red) /\ \A k \in 1..Len(red) : mu[k] = Cardinality({x \in 1..Len(all) : cls[x] = rc[k]})>>,
                               <<"matrix", IsMat(o.m, Len(red), Len(all), LAMBDA a, b : IF cls[b] = rc[a] THEN 1 ELSE 0)>>,
                               <<"argument-modified", o.pure>> >>)
            [] e.op = "map" ->
                 LET big == TLCEval([k \in 1..Len(i.big) |-> Class(AsSet(i.big[k]), i.sym)])
                     small == TLCEval([k \in 1..Len(i.small) |-> Class(AsSet(i.small[k]), i.sym)])
                 IN Failing(<< <<"matrix", IsMat(o.m, Len(small), Len(big), LAMBDA a, b : IF small[a] = big[b] THEN 1 ELSE 0)>> >>)
            [] OTHER -> {"unknown-operation"}
A_C17(s, e) == s
S_C17 == 0
=============================================================================
