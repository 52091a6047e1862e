------------------------------ MODULE MC_Fock ------------------------------
(* Exhaustive checks of the operator algebra in Fock.tla on small systems:
   canonical anticommutation relations, the documented basis ordering, number
   conservation, and that XformOp is the unitary that moves every creation operator. *)
EXTENDS Fock
CONSTANTS MaxL
VARIABLES S, p, q, sig, phase
vars == <<S, p, q, sig, phase>>

Perms(n) == {g \in [0..(n - 1) -> 0..(n - 1)] : \A a, b \in 0..(n - 1) : a # b => g[a] # g[b]}
Sys == {[n |-> n, ns |-> k, b |-> 2, f |-> TRUE] : n \in 1..MaxL, k \in 1..2}
Init == /\ S \in {x \in Sys : NL(x) <= MaxL}
        /\ p = 0 /\ q = 0 /\ sig = [x \in 0..(NL(S) - 1) |-> x] /\ phase = "start"
Next == /\ phase = "start"
        /\ p' \in 0..(NL(S) - 1) /\ q' \in 0..(NL(S) - 1) /\ sig' \in Perms(NL(S))
        /\ phase' = "chosen" /\ UNCHANGED S
Spec == Init /\ [][Next]_vars

Dm == States(S)
CP == LocalOp(S, Cann, p, TRUE)
CDQ == LocalOp(S, Cdag, q, TRUE)
CDP == LocalOp(S, Cdag, p, TRUE)
CQ == LocalOp(S, Cann, q, TRUE)
IsZero(A) == \A c \in DOMAIN A : DOMAIN A[c] = {}
CAR == /\ OpAdd(OpMul(CP, CDQ), OpMul(CDQ, CP)) = (IF p = q THEN OpId(Dm) ELSE Zero(Dm))
       /\ IsZero(OpAdd(OpMul(CP, CQ), OpMul(CQ, CP)))
       /\ OpDag(CP) = CDP
NumOps == OpMul(CDP, CP) = LocalOp(S, Nop, p, FALSE)
TwoIsProduct == TwoOp(S, Cdag, p, Cann, q, TRUE) = OpMul(CDP, CQ)
(* |s> = c+_{pk}...c+_{p1}|0> with sign + *)
RECURSIVE Fill(_, _, _)
Fill(s, k, col) == IF k = NL(S) THEN col
                   ELSE Fill(s, k + 1, IF Digit(S, s, k) = 1 THEN ThenCol(S, Cdag, k, TRUE, col) ELSE col)
Ordering == \A s \in Dm : Fill(s, 0, [r \in {0} |-> C1]) = [r \in {s} |-> C1]
U == XformOp(S, sig)
Covariant == OpMul(U, CDP) = OpMul(LocalOp(S, Cdag, sig[p], TRUE), U)
Unitary == OpMul(OpDag(U), U) = OpId(Dm)
Inv == phase = "chosen" => CAR /\ NumOps /\ TwoIsProduct /\ Covariant /\ Unitary
InvStart == phase = "start" => Ordering
=============================================================================
