----------------------------- MODULE SpinModel -----------------------------
(* Spin Hamiltonian  H = sum_{i>j,a} 2 J^a_ij S^a_i S^a_j - sum_{i,a} h^a_i S^a_i  for any spin.
   tw = twice the spin; digit d means 2m = tw - 2d.  Matrix elements are q*sqrt(A) with
   integers; columns hold signed squares of the real and imaginary part of 2H off the
   diagonal, and 2H itself on the diagonal. *)
EXTENDS Fock

Raise2(tw, d) == d * (tw - d + 1)              \* |<d-1|S+|d>|^2
Lower2(tw, d) == (d + 1) * (tw - d)            \* |<d+1|S-|d>|^2
SSq(x) == IF x < 0 THEN -(x * x) ELSE x * x

(* coupling between sites i and j (1-based) *)
Coupl(G, a, i, j) == CASE a.form = "scalar" -> a.v * G.adj[i][j]
                      [] a.form = "full" -> a.v[i][j]
                      [] a.form = "ring" -> LET n == G.n
                                            IN IF Abs(i - j) = n - 1 THEN a.v[n]
                                               ELSE IF Abs(i - j) = 1 THEN a.v[Min2(i, j)] ELSE 0
Field(a, i) == IF a.form = "scalar" THEN a.v ELSE a.v[i]
Twice(S, tw, s, i) == tw - 2 * Digit(S, s, i - 1)
Pairs(S) == {<<i, j>> \in (1..S.n) \X (1..S.n) : i > j}

(* detuning that turns spin interactions into interactions between excitations *)
Detune(S, G, p, i) == IF p.ryd THEN -SumOver(1..S.n, LAMBDA j : Coupl(G, p.jz, i, j)) ELSE 0
Hz(S, G, p, i) == Field(p.hz, i) + Detune(S, G, p, i)

Diag2(S, G, p, tw, s) ==
    SumOver(Pairs(S), LAMBDA x : Coupl(G, p.jz, x[1], x[2]) * Twice(S, tw, s, x[1]) * Twice(S, tw, s, x[2]))
  - SumOver(1..S.n, LAMBDA i : Hz(S, G, p, i) * Twice(S, tw, s, i))

(* single flips: digit of site i moves by dir (-1 raises m).  2H = (-hx +- i hy) sqrt(A) *)
Single(S, p, tw, s) == {x \in (1..S.n) \X {-1, 1} : Digit(S, s, x[1] - 1) + x[2] \in 0..tw}
A1(tw, d, dir) == IF dir = -1 THEN Raise2(tw, d) ELSE Lower2(tw, d)
Flip(S, s, i, dir) == SetDigit(S, s, i - 1, Digit(S, s, i - 1) + dir)
SpinCol(S, G, p, tw, s) ==
  LET one == Single(S, p, tw, s)
      oneAmp(x) == LET A == A1(tw, Digit(S, s, x[1] - 1), x[2])
                       hx == Field(p.hx, x[1])
                       hy == Field(p.hy, x[1])
                   IN <<SSq(-hx) * A, SSq(IF x[2] = -1 THEN hy ELSE -hy) * A>>
      oneRow(x) == Flip(S, s, x[1], x[2])
      two == {y \in Pairs(S) \X {-1, 1} \X {-1, 1} :
                /\ Digit(S, s, y[1][1] - 1) + y[2] \in 0..tw
                /\ Digit(S, s, y[1][2] - 1) + y[3] \in 0..tw}
      twoAmp(y) == LET A == A1(tw, Digit(S, s, y[1][1] - 1), y[2]) * A1(tw, Digit(S, s, y[1][2] - 1), y[3])
                       jx == Coupl(G, p.jx, y[1][1], y[1][2])
                       jy == Coupl(G, p.jy, y[1][1], y[1][2])
                   IN <<SSq(IF y[2] = y[3] THEN jx - jy ELSE jx + jy) * A, 0>>
      twoRow(y) == Flip(S, Flip(S, s, y[1][1], y[2]), y[1][2], y[3])
      d == Diag2(S, G, p, tw, s)
  IN UNION {{<<oneRow(x), s, oneAmp(x)[1], oneAmp(x)[2]>> : x \in one},
            {<<twoRow(y), s, twoAmp(y)[1], twoAmp(y)[2]>> : y \in two},
            {<<s, s, d, 0>>}}
NonZero(E) == {x \in E : x[3] # 0 \/ x[4] # 0}
=============================================================================
