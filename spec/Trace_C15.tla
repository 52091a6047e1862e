------------------------------ MODULE Trace_C15 ------------------------------
(* C15: current operator and linear response functions. *)
EXTENDS Response, Hubbard, TraceBase

(* r / 10^4 = num / (10^4 den), every term of num rounded *)
Agrees(r, num, den, terms) == Abs(r * den - num) <= 2 * den + terms
Herm(M) == IsHermitian(M)

V_C15(s, e) ==
  LET i == e.inp
      o == e.out
      n2 == IF e.op = "current" THEN 0 ELSE Len(i.e) * Len(i.e)
      z == IF e.op = "current" THEN 1 ELSE Z2(i.m, i.k, i.e, MinE(i.e))
      T == IF e.op # "current" THEN 0
           ELSE TLCEval([a \in 1..i.S.n |-> TLCEval([b \in 1..i.S.n |-> TLCEval([k \in 1..i.S.ns |-> Hop(i.G, i.t, a, b, k)])])])
  IN IF e.op = "badformat" THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "current" ->
                 IF ~Unambiguous(i.S, i.L, T) THEN {}
                 ELSE Failing(<< <<"current", SameMatrix(o.m, Dim(i.S), Dim(i.S), LAMBDA c : CurrentCol(i.S, i.L, T, i.d, c))>> >>)
            [] e.op = "retarded" ->
                 Failing(<< <<"values", \A q \in 1..Len(i.w) :
                      Agrees(o.v[q], Retarded(i.A, i.B, i.e, i.m, i.k, IF i.fermi THEN 1 ELSE -1, i.w[q][1], i.w[q][2]), z, n2)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "optical" ->
                 Failing(<< <<"values", \A q \in 1..Len(i.w) :
                      IF i.k = -1 THEN Agrees(o.v[q] * i.n, OpticalZero(i.A, i.e, i.w[q][1], i.w[q][2]), 1, n2 + 2 * i.n)
                      ELSE Agrees((o.v[q] * i.n * i.w[q][1]) \div 2, Optical(i.A, i.e, i.m, i.k, i.w[q][1], i.w[q][2]), z, n2 + (2 + Abs(i.w[q][1])) * i.n * z)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "integral" ->
                 Failing(<< <<"value", Agrees(o.v[1] * i.n, SumRule(i.A, i.e, i.m, i.k), z, n2 + 2 * i.n * z)>>,
                            <<"argument-modified", o.pure>> >>)
            [] OTHER -> {"unknown-operation"}
A_C15(s, e) == s
S_C15 == 0
=============================================================================
