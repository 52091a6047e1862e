------------------------------ MODULE Trace_C18 ------------------------------
(* C18: weights, order-by-order sums and resummation of linked-cluster expansions.
   Values are matrices v[cluster][component]; sums are recorded times nsites. *)
EXTENDS Expansion, TraceBase

Col(v, c) == [k \in 1..Len(v) |-> v[k][c]]
NC(v) == IF Len(v) = 0 THEN 0 ELSE Len(v[1])

V_C18(s, e) ==
  LET i == e.inp
      o == e.out
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "nlce" ->
                 LET M == {<<x[1] + 1, x[2] + 1, x[3]>> : x \in Rng(i.m)}
                     nc == NC(i.v)
                     W == TLCEval([c \in 1..nc |-> ExpWeights(Col(i.v, c), M)])
                     N == Len(i.v)
                 IN Failing(<< <<"weights", Len(o.w) = N /\ \A k \in 1..N : o.w[k] = [c \in 1..nc |-> W[c][k]]>>,
                               <<"orders", Len(o.o) = Len(i.edge) - 1 /\ \A k \in 1..Len(o.o) :
                                    o.o[k] = [c \in 1..nc |-> PartialSum(i.mult, W[c], i.edge[k] + 1, i.edge[k + 1])]>>,
                               <<"value", o.x = [c \in 1..nc |-> PartialSum(i.mult, W[c], 1, N)]>>,
                               <<"argument-modified", o.pure>> >>)
            [] e.op = "inverse" ->
                 (* cluster values built by the driver as sums of given weights g over all connected
                    subclusters must give those weights back *)
                 LET st == TLCEval([k \in 1..Len(o.cs) |-> Rng(o.cs[k])])
                     cls == TLCEval([k \in 1..Len(o.cs) |-> Orbit(st[k])])
                 IN Failing(<< <<"weights", \A k \in 1..Len(o.cs) : o.w[k] = <<i.g[k]>> >>,
                               <<"value", o.x[1] = SumSeq([k \in 1..Len(o.cs) |-> Cardinality(cls[k]) * i.g[k]])>> >>)
            [] e.op = "finite" ->
                 (* the expansion over all subclusters of a finite cluster is exact *)
                 Failing(<< <<"exact", o.x[1] = i.total>> >>)
            [] e.op = "euler" ->
                 LET nc == NC(i.v)
                     s1 == i.a + i.b
                     T == TLCEval([k \in 0..(Len(i.v) - 1) |-> TLCEval([c \in 1..nc |-> EulerTerm(Col(i.v, c), k, i.a, i.b)])])
                     n == Len(i.v)
                 IN Failing(<< <<"terms", Len(o.t) = n /\ \A k \in 1..n : o.t[k] = T[k - 1]>>,
                               <<"sum", o.x = [c \in 1..nc |-> SumSeq([k \in 1..n |-> T[k - 1][c] * Pow(s1, n - k)])]>>,
                               <<"argument-modified", o.pure>> >>)
            [] OTHER -> {"unknown-operation"}
A_C18(s, e) == s
S_C18 == 0
=============================================================================
