------------------------------ MODULE Trace_C07 ------------------------------
(* C07: the Fermi-Hubbard Hamiltonian and its separate terms. *)
EXTENDS Hubbard, TraceBase

Match(i, m, f(_)) == IF i.proj THEN SameProjected(m, i.P, f) ELSE SameColumns(m, i, Dim(i.S), Dim(i.S), f)
W(i, a, b) == Abs(i.d[1] * i.dx[a][b]) + Abs(i.d[2] * i.dy[a][b])

V_C07(s, e) ==
  LET i == e.inp
      S == i.S
      G == i.G
      p == i.p
      o == e.out
  IN IF i.bad THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "ham" -> Failing(<< <<"hamiltonian", Match(i, o.m, LAMBDA c : HamCol(S, G, p, c))>>, <<"pure", o.pure>> >>)
            [] e.op = "kin" -> Failing(<< <<"kinetic", Match(i, o.m, LAMBDA c : KinCol(S, G, p.t, LAMBDA a, b : W(i, a, b), c))>> >>)
            [] e.op = "uinter" -> Failing(<< <<"interaction", Match(i, o.m, LAMBDA c : DiagCol(DiagU(S, p.u, c), c))>> >>)
            [] e.op = "usame" -> Failing(<< <<"same-species", Match(i, o.m, LAMBDA c : DiagCol(DiagV(S, G, p.v, c), c))>> >>)
            [] e.op = "mu" -> Failing(<< <<"chemical-potential", Match(i, o.m, LAMBDA c : DiagCol(DiagMu(S, p.mu, c), c))>> >>)
            [] e.op = "pot" -> Failing(<< <<"potential", Match(i, o.m, LAMBDA c : DiagCol(DiagPot(S, p.pot, c), c))>> >>)
            [] OTHER -> {"unknown-operation"}
A_C07(s, e) == s
S_C07 == 0
=============================================================================
