------------------------------ MODULE MC_Spin ------------------------------
(* Laws of SpinModel on all small couplings: the Hamiltonian is Hermitian, XX-symmetric
   couplings conserve the magnetisation, and isotropic couplings of spins one half commute
   with the total lowering operator.  Model parameters are the state; TLC visits all. *)
EXTENDS SpinModel
CONSTANTS MaxTw, Vals
VARIABLES tw, n, jx, jy, jz, hx, hy, hz, ryd
vars == <<tw, n, jx, jy, jz, hx, hy, hz, ryd>>
Init == /\ tw \in 1..MaxTw /\ n \in 1..3 /\ (tw > 1 => n <= 2)
        /\ jx \in Vals /\ jy \in Vals /\ jz \in Vals /\ hx \in {0, 1} /\ hy \in Vals /\ hz \in {0, 3} /\ ryd \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Sc(v) == [form |-> "scalar", v |-> v]
S == [n |-> n, ns |-> 1, b |-> tw + 1, f |-> FALSE]
G == [n |-> n, adj |-> [a \in 1..n |-> [b \in 1..n |-> IF Abs(a - b) = 1 THEN 1 ELSE 0]]]
p == [jx |-> Sc(jx), jy |-> Sc(jy), jz |-> Sc(jz), hx |-> Sc(hx), hy |-> Sc(hy), hz |-> Sc(hz), ryd |-> ryd]
E == NonZero(UNION {SpinCol(S, G, p, tw, c) : c \in States(S)})
Hermitian == LET X == E IN \A x \in X : <<x[2], x[1], x[3], -x[4]>> \in X
Conserves == (jx = jy /\ hx = 0 /\ hy = 0) => \A x \in E : TotalNum(S, x[1]) = TotalNum(S, x[2])
(* spin one half, H as integers: H S- = S- H *)
ISq(x) == CHOOSE r \in 0..60 : r * r = x
Val(x) == IF x[1] = x[2] THEN x[3] ELSE IF x[3] < 0 THEN -ISq(-x[3]) ELSE ISq(x[3])
HOp == LET X == E IN [c \in States(S) |-> LET R == {x \in X : x[2] = c} IN
          [r \in {x[1] : x \in R} |-> <<Val(CHOOSE x \in R : x[1] = r), 0>>]]
Low == OpSum(States(S), 0..(n - 1), LAMBDA q : LocalOp(S, <<<<C0, C0>>, <<C1, C0>>>>, q, FALSE))
Isotropic == (tw = 1 /\ jx = jy /\ jy = jz /\ hx = 0 /\ hy = 0 /\ hz = 0 /\ ~ryd) => OpMul(HOp, Low) = OpMul(Low, HOp)
(* detuning: with every spin down nothing interacts; the energy of one up spin does not depend on jz *)
DownEnergy == Diag2(S, G, [p EXCEPT !.hz = Sc(0)], tw, Dim(S) - 1)
Detuned == (ryd /\ tw = 1) => LET pairs == SumOver(Pairs(S), LAMBDA x : G.adj[x[1]][x[2]])
               IN DownEnergy = jz * pairs - 2 * jz * pairs
Laws == Hermitian /\ Conserves /\ Isotropic /\ Detuned
=============================================================================
