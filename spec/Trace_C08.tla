------------------------------ MODULE Trace_C08 ------------------------------
(* C08: spin Hamiltonians. *)
EXTENDS SpinModel, TraceBase

(* for spin one half every entry of 2H is an integer: undo the squares, column as a function *)
RECURSIVE RootIn(_, _, _)
RootIn(x, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN RootIn(x, m, hi) ELSE RootIn(x, lo, m - 1)
SRoot(x) == IF x < 0 THEN -RootIn(-x, 0, 40000) ELSE RootIn(x, 0, 40000)
Unsquare(E) == [r \in {x[1] : x \in E} |->
                  LET x == CHOOSE y \in E : y[1] = r IN IF x[1] = x[2] THEN <<x[3], x[4]>> ELSE <<SRoot(x[3]), SRoot(x[4])>>]
V_C08(s, e) ==
  LET i == e.inp
      S == i.S
  IN IF i.bad THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"}
     ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "ham" ->
               LET m == e.out.m
               IN Failing(<<
                 <<"shape", m.nr = Dim(S) /\ m.nc = Dim(S)>>,
                 <<"hamiltonian", EntrySet(m) = NonZero(UNION {SpinCol(S, i.G, i.p, i.tw, c) : c \in ColDom(i, Dim(S))})>>,
                 <<"pure", e.out.pure>> >>)
            [] e.op = "sub" ->     \* restricted to basis states rows (0-based, in order)
               LET m == e.out.m
                   rows == i.rows
                   k == Len(rows)
                   want == UNION {NonZero(SpinCol(S, i.G, i.p, i.tw, rows[c])) : c \in 1..k}
                   pos(x) == CHOOSE c \in 1..k : rows[c] = x
                   R == Rng(rows)
               IN Failing(<<
                 <<"shape", m.nr = k /\ m.nc = k>>,
                 <<"projected", EntrySet(m) = {<<pos(x[1]) - 1, pos(x[2]) - 1, x[3], x[4]>> : x \in {y \in want : y[1] \in R}}>> >>)
            [] e.op = "proj" ->    \* spin one half: entries are integers, any projector P (rows)
               Failing(<< <<"projected", SameProjected(e.out.m, i.P, LAMBDA c : Unsquare(NonZero(SpinCol(S, i.G, i.p, i.tw, c))))>> >>)
            [] e.op = "detune" -> Failing(<< <<"detuning",
                 e.out.v = [x \in 1..S.n |-> -SumOver(1..S.n, LAMBDA j : Coupl(i.G, i.p.jz, x, j))]>> >>)
            [] e.op = "c6" -> \* interactions falling off as the sixth power: r2^3 * J = c6, times den
                 LET n == S.n IN Failing(<<
                   <<"shape", HasShape(e.out.j, n, n)>>,
                   <<"sixth-power", HasShape(e.out.j, n, n) => \A a \in 1..n : \A b \in 1..n :
                        IF i.r2[a][b] = 0 THEN e.out.j[a][b] = 0
                        ELSE Abs(e.out.j[a][b] * Pow(i.r2[a][b], 3) - i.c6) * 2 <= Pow(i.r2[a][b], 3) + 1>> >>)
            [] OTHER -> {"unknown-operation"}
A_C08(s, e) == s
S_C08 == 0
=============================================================================
