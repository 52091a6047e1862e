------------------------------ MODULE Trace_C20 ------------------------------
(* C20: Green's function transforms and linear-response helpers. *)
EXTENDS Greens, TraceBase

Near(a, b, tol) == Abs(a - b) <= tol
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
(* rounding error of an integral: half a unit for every grid point times its weight *)
Slack(x) == 2 + x[Len(x)] - x[1]
Is(v, n, f(_)) == Len(v) = n /\ \A j \in 1..n : v[j] = f(j)
IsN(v, n, f(_), tol) == Len(v) = n /\ \A j \in 1..n : Near(v[j], f(j), tol)
IsCN(v, n, f(_), tol) == Len(v) = n /\ \A j \in 1..n : CNear(v[j], f(j), tol)
(* points of the interval [0, beta] *)
Inside(t, beta) == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k] >= 0 /\ t[k] <= beta)

V_C20(s, e) ==
  LET i == e.inp
      o == e.out
  IN IF e.op = "reject" THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "matsubara" -> Failing(<< <<"frequencies", o.w = Matsubara(i.m, i.fermi)>> >>)
            [] e.op = "frq" -> Failing(<< <<"green-function", IsCN(o.g, Len(i.w), LAMBDA j : FromSpectralFrq(i.x, i.A, i.w[j]), Slack(i.x))>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "time" -> Failing(<< <<"green-function", IsN(o.g, Len(i.t), LAMBDA j : FromSpectralTime(i.x, i.A, i.t[j], i.b, i.fermi), Slack(i.x))>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "frqkernel" ->
                 Failing(<< <<"kernel", Len(o.k) = Len(i.w) /\ \A j \in 1..Len(i.w) :
                      IsCN(o.k[j], Len(i.x), LAMBDA k : CScale(Trap2(i.x, k), Pole(1, i.w[j], i.x[k])), Slack(i.x))>> >>)
            [] e.op = "timekernel" ->
                 Failing(<< <<"kernel", Len(o.k) = Len(i.t) /\ \A j \in 1..Len(i.t) :
                      IsN(o.k[j], Len(i.x), LAMBDA k : -Trap2(i.x, k) * Boltz(1, i.t[j], i.b, i.x[k], i.fermi), Slack(i.x))>> >>)
            [] e.op = "toFrq" ->
                 LET ix == Inside(i.t, i.beta)
                     t == [k \in 1..Len(ix) |-> i.t[ix[k]]]
                 IN Failing(<< <<"transform", Is(o.g, Len(i.w), LAMBDA j : Integral2(t, LAMBDA k : CMul(i.g[ix[k]], IPow(t[k] * i.w[j]))))>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "toTime" ->
                 Failing(<< <<"transform", Is(o.g, Len(i.t), LAMBDA j : CSum(1..Len(i.w), LAMBDA k : CMul(i.g[k], IPow(-i.w[k] * i.t[j]))))>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "freeTau" -> Failing(<< <<"green-function", IsN(o.g, Len(i.t), LAMBDA j : FreeTau(i.e, i.b, i.t[j]), 1)>> >>)
            [] e.op = "freeFrq" ->
                 LET w == Matsubara(i.m, TRUE)
                 IN Failing(<< <<"frequencies", o.w = [j \in 1..Len(w) |-> i.k * w[j]]>>,
                               <<"green-function", IsCN(o.g, Len(w), LAMBDA j : Pole(1, i.k * w[j], i.e), 1)>> >>)
            [] e.op = "spectral" ->
                 Failing(<< <<"spectral-function", IsN(o.a, Len(i.w), LAMBDA j : RoundHalfUp(2 * i.h * V, i.h * i.h + (i.w[j] - i.e) * (i.w[j] - i.e)), 1)>> >>)
            [] e.op = "hydro" -> Failing(<< <<"susceptibility", IsCN(o.c, Len(i.w), LAMBDA j : Hydro(i.w[j], i.k, i.c, i.d0, i.d2, i.g), 1)>> >>)
            [] e.op = "snap" -> Failing(<< <<"field", IsCN(o.c, Len(i.w), LAMBDA j : Quot(i.c, i.h, i.w[j]), 1)>> >>)
            [] e.op = "back" ->
                 Failing(<< <<"transform", Is(o.g, Len(i.q), LAMBDA j : FourierBack(i.x, [k \in 1..Len(i.x) |-> IF i.field THEN CMul(i.f[k], i.h[k]) ELSE i.f[k]], i.q[j]))>>,
                            <<"argument-modified", o.pure>> >>)
            [] OTHER -> {"unknown-operation"}
A_C20(s, e) == s
S_C20 == 0
=============================================================================
