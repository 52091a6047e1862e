------------------------------ MODULE Trace_C09 ------------------------------
(* C09: selection of particle-number sectors and of eigenspaces of diagonal operators. *)
EXTENDS Fock, TraceBase

(* m selects exactly the basis states in T: one row per state, each row a single 1 *)
Selects(m, nc, T) ==
  /\ m.nc = nc /\ m.nr = Cardinality(T) /\ Len(m.e) = m.nr
  /\ \A k \in 1..Len(m.e) : m.e[k][3] = 1 /\ m.e[k][4] = 0
  /\ {m.e[k][1] : k \in 1..Len(m.e)} = 0..(m.nr - 1)
  /\ {m.e[k][2] : k \in 1..Len(m.e)} = T

(* ns[k] = -1: the number of species k is not fixed *)
Sector(S, ns) == {s \in States(S) : \A k \in 1..S.ns : ns[k] = -1 \/ SpeciesNum(S, s, k - 1) = ns[k]}
VNumber(e) ==
  IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
  ELSE Failing(<< <<"sector", Selects(e.out.m, Dim(e.inp.S), Sector(e.inp.S, e.inp.ns))>> >>)

(* the vacuum-to-full family: sectors of all numbers cover every state exactly once *)
VFamily(e) ==
  LET S == e.inp.S
      o == e.out.sizes   \* sequence of [ns, dim]
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"sizes", \A k \in 1..Len(o) : o[k].d = ProdSeq([j \in 1..S.ns |-> Binom(S.n, o[k].ns[j])])>>,
                     <<"cover", SumSeq([k \in 1..Len(o) |-> o[k].d]) = Dim(S)>> >>)

VSub(e) ==
  LET i == e.inp
      n == Len(i.diag)
      ev == e.out.ev
      want == IF i.given THEN i.ev ELSE SetToSortSeq(Rng(i.diag), <)
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<<
       <<"eigenvalues", IF i.given THEN ev = want ELSE (Len(ev) = Len(want) /\ Rng(ev) = Rng(want))>>,
       <<"count", Len(e.out.ps) = Len(ev)>>,
       <<"eigenspaces", Len(e.out.ps) = Len(ev) =>
             \A k \in 1..Len(ev) : Selects(e.out.ps[k], n, {c \in 0..(n - 1) : i.diag[c + 1] = ev[k]})>> >>)

(* weight of state column psi inside the row space of P: ||P psi||^2; rows as <<col, re, im>> lists *)
ApplyRow(row, psi) == FoldLeft(LAMBDA acc, x : CAdd(acc, CMul(<<x[2], x[3]>>, psi[x[1] + 1])), CZero, row)
Weight2(P, psi) == SumSeq([a \in 1..Len(P) |-> LET z == ApplyRow(P[a], psi) IN z[1] * z[1] + z[2] * z[2]])
VOverlap(e) ==
  LET i == e.inp
      want == FlattenSeq([p \in 1..Len(i.ps) |-> [k \in 1..Len(i.psi) |-> Weight2(i.ps[p], i.psi[k])]])
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"weights", e.out.w = want>>, <<"pure", e.out.pure>> >>)

(* large sectors: size, and particle numbers of a sample of the selected states *)
VLarge(e) ==
  LET S == e.inp.S
      o == e.out
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"size", o.nc = Dim(S) /\ o.nr = ProdSeq([j \in 1..S.ns |-> Binom(S.n, e.inp.ns[j])])>>,
                     <<"numbers", \A k \in 1..Len(o.pick) : o.pick[k][3] = 1 /\ o.pick[k][4] = 0
                                     /\ \A j \in 1..S.ns : SpeciesNum(S, o.pick[k][2], j - 1) = e.inp.ns[j]>>,
                     <<"one-row-each", Cardinality({o.pick[k][1] : k \in 1..Len(o.pick)}) = Len(o.pick)
                                       /\ Cardinality({o.pick[k][2] : k \in 1..Len(o.pick)}) = Len(o.pick)>> >>)

V_C09(s, e) == CASE e.op = "number" -> VNumber(e) [] e.op = "family" -> VFamily(e) [] e.op = "sub" -> VSub(e)
                 [] e.op = "overlap" -> VOverlap(e) [] e.op = "large" -> VLarge(e) [] OTHER -> {"unknown-operation"}
A_C09(s, e) == s
S_C09 == 0
=============================================================================
