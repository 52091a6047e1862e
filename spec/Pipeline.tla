------------------------------ MODULE Pipeline ------------------------------
(* The batch form of a linked-cluster expansion: jobs that communicate through files.
     gen      writes the list of inequivalent clusters up to order n (kept if it exists)
     table    the same together with the embedding counts, in one file
     sub i    writes the embedding counts among the subclusters of cluster i
     aggsub   joins the sub files, all of which must exist, with the cluster list
     diag i   writes values computed on cluster i
     aggres   joins the diag files, all of which must exist, into the expansion
     lose     removes a file (a failed or cleaned-up job)
   Jobs may run in any order, repeatedly and concurrently: only the files matter.
   State: n order, cs cluster list (<<>> = no file), mult, edge, subs set of indices,
   agg snapshot present, full present, d index -> values, res present. *)
EXTENDS Expansion

Fresh(n) == [n |-> n, cs |-> <<>>, mult |-> <<>>, edge |-> <<>>, acs |-> <<>>, subs |-> {}, agg |-> FALSE, full |-> FALSE, d |-> <<>>, res |-> FALSE]
AsSet(c) == Rng(c)
HasList(st) == st.cs # <<>>
N(st) == Len(st.cs)

(* preconditions *)
Can(st, op, i) ==
  CASE op \in {"gen", "table"} -> TRUE
    [] op \in {"sub", "diag"} -> HasList(st) /\ i \in 1..N(st)
    [] op = "aggsub" -> HasList(st) /\ st.subs = 1..N(st)
    [] op = "aggres" -> st.agg /\ DOMAIN st.d = 1..Len(st.acs)
    [] OTHER -> TRUE

Put(f, i, v) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN v ELSE f[k]]
Drop(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]
(* effect of a job that could run; v: what generation / diagonalisation wrote *)
After(st, op, i, v) ==
  CASE op = "gen" -> IF HasList(st) THEN st ELSE [st EXCEPT !.cs = v.cs, !.mult = v.mult, !.edge = v.edge]
    [] op = "table" -> [st EXCEPT !.full = TRUE]
    [] op = "sub" -> [st EXCEPT !.subs = @ \cup {i}]
    [] op = "aggsub" -> [st EXCEPT !.agg = TRUE, !.acs = st.cs]
    [] op = "diag" -> [st EXCEPT !.d = Put(@, i, v)]
    [] op = "aggres" -> [st EXCEPT !.res = TRUE]
    [] op = "losesub" -> [st EXCEPT !.subs = @ \ {i}]
    [] op = "losediag" -> [st EXCEPT !.d = Drop(@, i)]
    [] op = "loselist" -> [st EXCEPT !.cs = <<>>, !.mult = <<>>, !.edge = <<>>]
    [] op = "loseagg" -> [st EXCEPT !.agg = FALSE, !.acs = <<>>]
    [] op = "loseres" -> [st EXCEPT !.res = FALSE]
    [] OTHER -> st
Names(st) == (IF HasList(st) THEN {"clusters"} ELSE {}) \cup (IF st.full THEN {"table"} ELSE {})
             \cup {"sub" \o ToString(k) : k \in st.subs} \cup (IF st.agg THEN {"agg"} ELSE {})
             \cup {"diag" \o ToString(k) : k \in DOMAIN st.d} \cup (IF st.res THEN {"results"} ELSE {})
(* the only file a job may write *)
Target(st, op, i) == CASE op = "gen" -> IF HasList(st) THEN {} ELSE {"clusters"} [] op = "table" -> IF st.full THEN {} ELSE {"table"}
                       [] op = "sub" -> {"sub" \o ToString(i)} [] op = "diag" -> {"diag" \o ToString(i)}
                       [] op = "aggsub" -> {"agg"} [] op = "aggres" -> {"results"} [] OTHER -> {}

(* embedding counts among a list of clusters, as a set of <<row, col, count>> (1-based) *)
Counts(cs, rows) ==
  LET cls == TLCEval([k \in 1..Len(cs) |-> Orbit(AsSet(cs[k].s))])
      row(a) == LET P == AsSet(cs[a].s)
                    T == TLCEval(AllSubs(P) \ {P})
                    k == TLCEval([q \in T |-> Orbit(q)])
                IN {x \in {<<a, b, Cardinality({q \in T : k[q] = cls[b]})>> : b \in 1..Len(cs)} : x[3] # 0}
  IN UNION {row(a) : a \in rows}
(* rows a sub job writes: its own cluster and every cluster inside it *)
RowsOf(cs, i) == LET T == TLCEval({Orbit(q) : q \in AllSubs(AsSet(cs[i].s))}) IN {a \in 1..Len(cs) : Orbit(AsSet(cs[a].s)) \in T}

(* ---- spin-half Heisenberg values of a cluster: sum over bonds of S.S --------------- *)
RECURSIVE BitAt(_, _)
BitAt(s, k) == IF k = 0 THEN s % 2 ELSE BitAt(s \div 2, k - 1)
Ups(n, s) == SumOver(0..(n - 1), LAMBDA k : BitAt(s, k))
(* four times the Hamiltonian: every bond gives 2 swap - 1 *)
HeisCol(n, bonds, s) ==
  LET same == {b \in bonds : BitAt(s, b[1] - 1) = BitAt(s, b[2] - 1)}
      flip(b) == s + (IF BitAt(s, b[1] - 1) = 1 THEN Pow(2, b[2] - 1) - Pow(2, b[1] - 1) ELSE Pow(2, b[1] - 1) - Pow(2, b[2] - 1))
      off == bonds \ same
      dg == Cardinality(same) - Cardinality(off)
  IN [r \in {s} \cup {flip(b) : b \in off} |-> IF r = s THEN dg ELSE 2 * Cardinality({b \in off : flip(b) = r})]
ColApply(n, bonds, col) == LET R == TLCEval([s \in DOMAIN col |-> HeisCol(n, bonds, s)])
                               D == UNION {DOMAIN R[s] : s \in DOMAIN col}
                           IN TLCEval([r \in D |-> SumOver({s \in DOMAIN col : r \in DOMAIN R[s]}, LAMBDA s : R[s][r] * col[s])])
RECURSIVE ColPow(_, _, _, _)
ColPow(n, bonds, s, k) == IF k = 0 THEN [r \in {s} |-> 1] ELSE ColApply(n, bonds, ColPow(n, bonds, s, k - 1))
(* trace of (4 H)^k over the states with m up spins *)
SectorTrace(n, bonds, m, k) == SumOver({s \in 0..(Pow(2, n) - 1) : Ups(n, s) = m}, LAMBDA s :
                                  LET c == ColPow(n, bonds, s, k) IN IF s \in DOMAIN c THEN c[s] ELSE 0)
Bonds(sites) == {<<a, b>> \in (1..Len(sites)) \X (1..Len(sites)) : a < b /\ Linked(sites[a], sites[b])}
=============================================================================
