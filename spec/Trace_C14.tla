------------------------------ MODULE Trace_C14 ------------------------------
(* C14: expectation values and correlators of site operators, in the full space or behind
   a projector P (rows), for states or for a thermal ensemble of states.
   The value for state psi is Re <phi| O |phi> with phi = P+ psi. *)
EXTENDS Fock, Thermal, TraceBase

(* rows of P as lists of <<col, re, im>>, 0-based columns; psi a sequence over rows *)
LiftFn(P, psi) ==
  LET used == UNION {{P[a][k][1] : k \in 1..Len(P[a])} : a \in 1..Len(P)}
      at(c) == CSumSeq([a \in 1..Len(P) |-> CSumSeq([k \in 1..Len(P[a]) |->
                  IF P[a][k][1] = c THEN CMul(CConj(<<P[a][k][2], P[a][k][3]>>), psi[a]) ELSE CZero])])
  IN Prune([c \in used |-> at(c)])
FullFn(psi) == Prune([c \in 0..(Len(psi) - 1) |-> psi[c + 1]])
Phi(i, psi) == IF i.proj THEN LiftFn(i.p, psi) ELSE FullFn(psi)

(* <phi| O |phi> where col(c) is column c of O *)
Sandwich(phi, col(_)) ==
  CSum(DOMAIN phi, LAMBDA c : LET k == TLCEval(col(c)) IN
     CSum(DOMAIN k \cap DOMAIN phi, LAMBDA r : CMul(CConj(phi[r]), CMul(k[r], phi[c]))))
SiteVal(i, phi, site) == Sandwich(phi, LAMBDA c : LocalCol(i.S, i.op1, Logical(i.S, site, i.k1), i.fermi, c))[1]
PairVal(i, phi, a, b) ==
  LET p == Logical(i.S, a, i.k1)
      q == Logical(i.S, b, i.k2)
  IN Sandwich(phi, LAMBDA c : TwoCol(i.S, i.op1, p, i.op2, q, i.fermi, c))[1]

AllPairs(n) == {<<a, b>> \in (0..(n - 1)) \X (0..(n - 1)) : a >= b}
SitesOk(i, o) == IF i.given THEN o.s1 = i.s1 ELSE o.s1 = [k \in 1..i.S.n |-> k - 1]
PairsOk(i, o) ==
  IF i.given THEN o.s1 = i.s1 /\ o.s2 = i.s2
  ELSE LET u == [k \in 1..Len(o.s1) |-> <<Max2(o.s1[k], o.s2[k]), Min2(o.s1[k], o.s2[k])>>]
       IN Len(o.s1) = Len(o.s2) /\ Rng(u) = AllPairs(i.S.n) /\ Len(u) = Cardinality(AllPairs(i.S.n))

(* v[x][state] *)
VStates(e, n, val(_, _), ok) ==
  LET i == e.inp
      phis == TLCEval([j \in 1..Len(i.psi) |-> TLCEval(Phi(i, i.psi[j]))])
      o == e.out
  IN IF ~ok THEN {"sites"}
     ELSE Failing(<< <<"values", Len(o.v) = n /\ \A x \in 1..n : o.v[x] = [j \in 1..Len(i.psi) |-> val(phis[j], x)]>>,
                     <<"argument-modified", o.pure>> >>)
(* v[x][temperature], in 10^4ths *)
VTherm(e, n, val(_, _), ok) ==
  LET i == e.inp
      phis == TLCEval([j \in 1..Len(i.psi) |-> TLCEval(Phi(i, i.psi[j]))])
      o == e.out
      ref == MinE(i.e)
      vals == TLCEval([x \in 1..n |-> TLCEval([j \in 1..Len(i.psi) |-> val(phis[j], x)])])
  IN IF ~ok THEN {"sites"}
     ELSE Failing(<< <<"values", Len(o.v) = n /\ \A x \in 1..n : Len(o.v[x]) = Len(i.ks) /\ \A t \in 1..Len(i.ks) :
                         IsRatio(o.v[x][t], 10000, Num2(i.m, i.ks[t], i.e, vals[x], ref), Z2(i.m, i.ks[t], i.e, ref), 1)>>,
                     <<"argument-modified", o.pure>> >>)

V_C14(s, e) ==
  LET i == e.inp
      o == e.out
      sv(phi, x) == SiteVal(i, phi, o.s1[x])
      pv(phi, x) == PairVal(i, phi, o.s1[x], o.s2[x])
  IN IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "site" -> VStates(e, Len(o.s1), sv, SitesOk(i, o))
            [] e.op = "pair" -> VStates(e, Len(o.s1), pv, PairsOk(i, o))
            [] e.op = "tsite" -> VTherm(e, Len(o.s1), sv, SitesOk(i, o))
            [] e.op = "tpair" -> VTherm(e, Len(o.s1), pv, PairsOk(i, o))
            [] OTHER -> {"unknown-operation"}
A_C14(s, e) == s
S_C14 == 0
=============================================================================
