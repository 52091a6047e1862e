------------------------------ MODULE Trace_C22 ------------------------------
(* C22: histories of the batch jobs.  After every event the driver reports the names of all
   files and which of them changed; accepted jobs also report what they wrote. *)
EXTENDS Pipeline, TraceBase

Sound(o) == \A k \in 1..Len(o) : Cardinality(AsSet(o[k].s)) = Len(o[k].s)
AdjOk(o) == \A k \in 1..Len(o) : o[k].a = [i \in 1..Len(o[k].s) |-> [j \in 1..Len(o[k].s) |-> IF Linked(o[k].s[i], o[k].s[j]) THEN 1 ELSE 0]]
EdgesOk(edge, cs, n) == Len(edge) = n + 1 /\ edge[1] = 0 /\ edge[n + 1] = Len(cs)
                        /\ (\A k \in 1..n : edge[k] <= edge[k + 1])
                        /\ (\A k \in 1..n : \A x \in (edge[k] + 1)..edge[k + 1] : Len(cs[x].s) = k)
Complete(cs, n) == LET want == TLCEval(UNION {Classes(Shapes(k), TRUE) : k \in 1..n})
                       have == TLCEval({Orbit(AsSet(cs[k].s)) : k \in 1..Len(cs)})
                   IN want = have /\ Len(cs) = Cardinality(want)
ListBad(b, n) == Failing(<< <<"clusters", Complete(b.cs, n)>>, <<"sites", Sound(b.cs)>>, <<"adjacency", AdjOk(b.cs)>>,
                            <<"order-indices", EdgesOk(b.edge, b.cs, n)>>,
                            <<"multiplicities", b.mult = [k \in 1..Len(b.cs) |-> Cardinality(Orbit(AsSet(b.cs[k].s)))]>>,
                            <<"order", b.n = n>> >>)
IsMat(m, n, C) == m.nr = n /\ m.nc = n /\ {<<x[1] + 1, x[2] + 1, x[3], x[4]>> : x \in Rng(m.e)} = {<<x[1], x[2], x[3], 0>> : x \in C}

(* --- one diagonalised cluster; energies in thousandths, weights in 1/2000 ----------- *)
Flat(f) == FlattenSeq(f)
Mean(w, e) == SumSeq([j \in 1..Len(w) |-> w[j] * e[j]])
DiagBad(b, c) ==
  LET n == Len(c.s)
      bonds == Bonds(c.s)
      spec == Flat(b.spec)
      up == Flat([m \in 1..Len(b.spec) |-> [j \in 1..Len(b.spec[m]) |-> m - 1]])
      srt(s) == SortSeq(s, <)
      NS == Len(spec)
      sq == [j \in 1..NS |-> (spec[j] * spec[j]) \div 1000]
      zz(j) == ((2 * up[j] - n) * (2 * up[j] - n) - n) \div 2
      At(t) == LET w == Flat(b.w[t])
                   Z == SumSeq(w)
                   off(x) == SumSeq([j \in 1..NS |-> Abs(spec[j] - x)]) \div (2 * Z)
                   T == b.T[t]
                   en == b.en[t]
                   var == (SumSeq([j \in 1..NS |-> w[j] * sq[j]]) \div Z) - ((en * en) \div 1000)
               IN Failing(<< <<"energy", Abs(en * Z - Mean(w, spec)) <= (3 + off(en)) * Z>>,
                             <<"specific-heat", Abs(b.cT2[t] - var) <= 12 + 8 * off(en)>>,
                             <<"entropy", Abs((b.ent[t] - b.lnZ[t]) * T - 1000 * en) <= 4 * T + 2000>>,
                             <<"spin-correlations", Abs(b.zz[t] * Z - 1000 * SumSeq([j \in 1..NS |-> w[j] * zz(j)])) <= (3 + ((500 * n * n * NS) \div Z)) * Z>> >>)
  IN IF Len(b.spec) # n + 1 \/ \E m \in 0..n : Len(b.spec[m + 1]) # Binom(n, m) THEN {"witness-shape"}
     ELSE IF \E m \in 0..n, k \in 1..4 : Abs(b.ps[m + 1][k] - 1000 * SectorTrace(n, bonds, m, k)) > 3 THEN {"witness-spectrum"}
     ELSE Failing(<< <<"cluster", b.c = c>>,
                     <<"spectrum", Len(b.E) = NS /\ LET x == srt(spec) IN \A j \in 1..NS : Abs(b.E[j] - x[j]) <= 1>> >>)
          \cup UNION {At(t) : t \in 1..Len(b.T)}

(* --- joined results ------------------------------------------------------------------ *)
RECURSIVE ErrR(_, _, _, _)
ErrR(n, M, k, acc) == IF k > n THEN acc ELSE ErrR(n, M, k + 1, Append(acc, 1 + SumOver({x \in M : x[1] = k}, LAMBDA x : x[3] * acc[x[2]])))
ResBad(st, b, exact) ==
  LET n == Len(st.acs)
      M == Counts(st.acs, 1..n)
      err == IF exact THEN [k \in 1..n |-> 0] ELSE ErrR(n, M, 1, <<>>)
      no == Len(st.edge0) - 1
      Group(g) ==
        LET r == b.g[g]
            nt == Len(st.d[1][g])
            col(t) == [k \in 1..n |-> st.d[k][g][t]]
            W == TLCEval([t \in 1..nt |-> ExpWeights(col(t), M)])
            P(t, a, z) == PartialSum(st.mult0, W[t], a, z)
            tol(a, z) == 1 + PartialSum(st.mult0, err, a, z)
            lim(x) == IF exact THEN 0 ELSE x
            ord(t) == [k \in 1..no |-> P(t, st.edge0[k] + 1, st.edge0[k + 1])]
            eul(t) == SumSeq([k \in 1..no |-> EulerTerm(ord(t), k - 1, 1, 1) * Pow(2, no - k)])
        IN Failing(<< <<"values", r.all = [k \in 1..n |-> [t \in 1..nt |-> st.d[k][g][t]]]>>,
                      <<"weights", Len(r.w) = n /\ \A k \in 1..n, t \in 1..nt : Abs(r.w[k][t] - W[t][k]) <= lim(1 + err[k])>>,
                      <<"orders", Len(r.o) = no /\ \A k \in 1..no, t \in 1..nt : Abs(r.o[k][t] - ord(t)[k]) <= lim(tol(st.edge0[k] + 1, st.edge0[k + 1]))>>,
                      <<"expansion", Len(r.x) = nt /\ \A t \in 1..nt : Abs(r.x[t] - P(t, 1, n)) <= lim(tol(1, n))>>,
                      <<"resummed", Len(r.eu) = nt /\ \A t \in 1..nt : Abs(r.eu[t] - eul(t)) <= lim(Pow(2, no) * tol(1, n))>> >>)
  IN Failing(<< <<"clusters", b.cs = [k \in 1..n |-> st.acs[k].s]>> >>) \cup UNION {Group(g) : g \in 1..4}

V_C22(st, e) ==
  LET op == e.op
      i == e.inp.i
      o == e.out
      can == Can(st, op, i)
      nx == IF can THEN After(st, op, i, IF op = "gen" THEN o.b ELSE 0) ELSE st
      acc == ~o.rejected
      body == CASE op = "gen" -> Failing(<< <<"count", o.b.count = Len(nx.cs)>> >>) \cup
                                 (IF HasList(st) THEN {} ELSE ListBad(o.b, st.n))
                [] op = "table" -> ListBad(o.b, st.n) \cup Failing(<< <<"count", o.b.count = Len(o.b.cs)>>, <<"counts", IsMat(o.b.m, Len(o.b.cs), Counts(o.b.cs, 1..Len(o.b.cs)))>> >>)
                [] op = "sub" -> Failing(<< <<"index", o.b.idx = i - 1>>, <<"cluster", o.b.c = st.cs[i]>>,
                                            <<"counts", IsMat(o.b.m, N(st), Counts(st.cs, RowsOf(st.cs, i)))>> >>)
                [] op = "aggsub" -> Failing(<< <<"list-kept", o.b.cs = st.cs /\ o.b.mult = st.mult /\ o.b.edge = st.edge /\ o.b.n = st.n>>,
                                               <<"counts", IsMat(o.b.m, N(st), Counts(st.cs, 1..N(st)))>> >>)
                [] op = "diag" -> IF e.inp.fake THEN {} ELSE DiagBad(o.b, st.cs[i])
                [] op = "aggres" -> ResBad([acs |-> st.acs, d |-> st.d, mult0 |-> [k \in 1..Len(st.acs) |-> Cardinality(Orbit(AsSet(st.acs[k].s)))],
                                            edge0 |-> [k \in 1..(st.n + 1) |-> Cardinality({x \in 1..Len(st.acs) : Len(st.acs[x].s) < k})]], o.b, e.inp.fake)
                [] OTHER -> {}
  IN IF op = "reset" THEN {}
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~can THEN (IF acc THEN {"must-be-rejected"} ELSE {}) \cup Failing(<< <<"files", acc \/ Rng(o.files) = Names(st)>>, <<"other-files", acc \/ o.changed = <<>> >> >>)
     ELSE IF ~acc THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE body \cup Failing(<< <<"files", Rng(o.files) = Names(IF op = "diag" THEN [st EXCEPT !.d = Put(@, i, 0)] ELSE nx)>>,
                               <<"other-files", Rng(o.changed) \subseteq Target(st, op, i)>> >>)
S_C22 == Fresh(1)
A_C22(st, e) == IF e.op = "reset" THEN Fresh(e.inp.n)
                ELSE IF ~e.ok \/ e.mal THEN st
                ELSE IF ~Can(st, e.op, e.inp.i) \/ e.out.rejected THEN st
                ELSE After(st, e.op, e.inp.i, CASE e.op = "gen" -> e.out.b [] e.op = "diag" -> e.out.b.v [] OTHER -> 0)
=============================================================================
