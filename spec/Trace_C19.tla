------------------------------ MODULE Trace_C19 ------------------------------
(* C19: the non-interacting Fermi gas. *)
EXTENDS FermiGas, TraceBase

Near(a, b, tol) == Abs(a - b) <= tol
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
SeqNear(v, n, f(_), tol) == Len(v) = n /\ \A j \in 1..n : Near(v[j], f(j), tol)
SeqCNear(v, n, f(_), tol) == Len(v) = n /\ \A j \in 1..n : CNear(v[j], f(j), tol)

Observable(i, j) ==
  LET N == i.n
      d == i.d
      b == i.b[j]
      r == i.r
  IN CASE i.what = "density" -> Density(N, d, b, i.mu[j])
       [] i.what = "compressibility" -> Compress(N, d, b, i.mu[j])
       [] i.what = "corr" -> Corr(N, d, r, b, i.mu[j])
       [] i.what = "singles" -> Singles(N, d, b, i.mu[j], i.md[j])
       [] i.what = "singles_corr" -> SinglesCorr(N, d, r, b, i.mu[j], i.md[j])
       [] i.what = "doubles" -> Doubles(N, d, b, i.mu[j], i.md[j])
       [] i.what = "doubles_corr" -> DoublesCorr(N, d, r, b, i.mu[j], i.md[j])
       [] i.what = "sz_corr" -> SzCorr(N, d, r, b, i.mu[j], i.md[j])
       [] i.what = "sx_corr" -> SxCorr(N, d, r, b, i.mu[j], i.md[j])

(* momenta in units 2 pi / N *)
Complete(v, N) == Len(v) = N /\ {v[j] % N : j \in 1..N} = 0..(N - 1) /\ \A j \in 1..(N - 1) : v[j + 1] = v[j] + 1
InZone(v, N, mode) == \A j \in 1..N : IF mode = "positive" THEN 0 <= v[j] /\ v[j] < N ELSE 2 * Abs(v[j]) <= N
GridOk(i, o) == LET gx == o.kx[1]
                    gy == [a \in 1..Len(o.ky) |-> o.ky[a][1]]
                IN Len(o.kx) = i.ny /\ Len(o.ky) = i.ny
                   /\ (\A a \in 1..i.ny : o.kx[a] = gx /\ o.ky[a] = [c \in 1..i.nx |-> gy[a]])
                   /\ Complete(gx, i.nx) /\ Complete(gy, i.ny) /\ InZone(gx, i.nx, i.mode) /\ InZone(gy, i.ny, i.mode)

InBin(e, k, x) == e[k] <= x /\ (x < e[k + 1] \/ (k + 1 = Len(e) /\ x = e[k + 1]))
Gaps(s) == {<<j, s[j + 1] - s[j]>> : j \in {x \in 1..(Len(s) - 1) : s[x + 1] # s[x]}}

V_C19(s, e) ==
  LET i == e.inp
      o == e.out
  IN IF e.op = "reject" THEN (IF e.ok THEN {"must-be-rejected"} ELSE {})
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE CASE e.op = "fermi" ->
                 Failing(<< <<"shape", o.sh = i.sh>>, <<"occupation", SeqNear(o.v, Len(i.p), LAMBDA j : Occ(i.p[j][1], i.p[j][2]), 1)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "deriv" ->
                 Failing(<< <<"shape", o.sh = i.sh>>,
                            <<"d-mu", SeqNear(o.m, Len(i.p), LAMBDA j : OccMu(i.p[j][1], i.p[j][2]), 7)>>,
                            <<"d-energy", SeqNear(o.e, Len(i.p), LAMBDA j : -OccMu(i.p[j][1], i.p[j][2]), 7)>>,
                            <<"d-beta", SeqNear(o.b, Len(i.p), LAMBDA j : OccBeta(i.p[j][1], i.p[j][2]), 12)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "kvects" -> Failing(<< <<"momenta", GridOk(i, o)>>, <<"spacing", o.dk = <<1, 1>> >> >>)
            [] e.op = "spacing" ->
                 LET g == TLCEval(Gaps(SortSeq(i.e, <)))
                     gs == {x[2] : x \in g}
                 IN Failing(<< <<"least", o.v[1] = Min(gs)>>, <<"largest", o.v[2] = Max(gs)>>,
                               <<"mean", o.v[3] = SumOver(g, LAMBDA x : x[2])>> >>)
            [] e.op = "dos" ->
                 Failing(<< <<"density", Len(o.v) = Len(i.edge) - 1 /\ \A k \in 1..Len(o.v) :
                      o.v[k] * (i.edge[k + 1] - i.edge[k]) = 4 * Cardinality({j \in 1..Len(i.e) : InBin(i.edge, k, i.e[j])})>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "dos2" ->
                 (* equal bins over [-band/2, band/2] when N is even (units 1/1000), unit norm *)
                 LET n == Len(o.v)
                     w2 == RoundHalfUp(2 * i.band, n)
                 IN Failing(<< <<"bins", n >= 1 /\ Len(o.e) = n /\ \A k \in 1..n : Near(o.e[k], i.lo + RoundHalfUp(i.band * (2 * k - 1), 2 * n), 2)>>,
                               <<"positive", \A k \in 1..n : o.v[k] >= 0>>,
                               <<"norm", Near(RoundHalfUp(SumSeq(o.v) * i.band, n * 1000), 1000, 3)>> >>)
            [] e.op = "kspace" ->
                 Failing(<< <<"green-function", SeqCNear(o.g, Len(i.p), LAMBDA j : Gfn(i.type, i.p[j][1], i.p[j][2], i.p[j][3]), 2)>>,
                            <<"d-mu", i.type = "time-ordered" \/ (\E j \in 1..Len(i.p) : i.p[j][1] = -1)
                                \/ SeqCNear(o.d, Len(i.p), LAMBDA j : GfnMu(i.type, i.p[j][1], i.p[j][2], i.p[j][3]), 14)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "real" ->
                 Failing(<< <<"green-function", SeqCNear(o.g, Len(i.b), LAMBDA j : RealGfn(i.type, i.n, i.d, i.r, i.b[j], i.mu[j], i.q), 3)>>,
                            <<"d-mu", i.type = "time-ordered" \/ (\E j \in 1..Len(i.b) : i.b[j] = -1)
                                \/ SeqCNear(o.d, Len(i.b), LAMBDA j : RealGfnMu(i.type, i.n, i.d, i.r, i.b[j], i.mu[j], i.q), 14)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "observable" ->
                 Failing(<< <<i.what, SeqNear(o.v, Len(i.b), LAMBDA j : Observable(i, j), 8)>>, <<"argument-modified", o.pure>> >>)
            [] e.op = "mu" ->
                 Failing(<< <<"density", SeqNear(o.n, Len(i.b), LAMBDA j : Density(i.n, i.d, i.b[j], i.mu[j]), 3)>>,
                            <<"chemical-potential", Len(o.m) = Len(i.b) /\ \A j \in 1..Len(i.b) :
                                 Compress(i.n, i.d, i.b[j], i.mu[j]) < 400 \/ Near(2 * o.m[j], U * i.mu[j], 4)>>,
                            <<"argument-modified", o.pure>> >>)
            [] e.op = "fill" -> Failing(<< <<"density", SeqNear(o.n, Len(i.n8), LAMBDA j : (U * i.n8[j]) \div 8, 3)>> >>)
            [] e.op = "response" ->
                 IF Singular(i.n, i.d, i.k, i.w2, i.h2) THEN {}
                 ELSE Failing(<< <<"response", SeqCNear(o.c, Len(i.b), LAMBDA j : Chi(i.n, i.d, i.k, i.b[j], i.mu[j], i.w2, i.h2), 5)>>,
                                 <<"argument-modified", o.pure>> >>)
            [] OTHER -> {"unknown-operation"}
A_C19(s, e) == s
S_C19 == 0
=============================================================================
