----------------------------- MODULE MC_Response -----------------------------
(* Laws of Response.tla: symmetries, positivity and sum rules of response functions of
   all small spectra and operators, and the continuity equation J = i [H, X]. *)
EXTENDS Response
CONSTANTS MaxE, Ent, Amps, NSp
VARIABLES kind, E, A, B, k, w2, h2, T, ns
vars == <<kind, E, A, B, k, w2, h2, T, ns>>
EntV == {<<0, 0>>, <<1, 0>>, <<1, -2>>}
AmpsV == {<<0, 0>>, <<1, 0>>, <<2, -1>>}
EntBig == EntV \cup {<<-1, 1>>}
AmpsBig == AmpsV \cup {<<0, 3>>}
None == <<>>
m == 10
Spectra == {<<0, a>> : a \in 0..MaxE} \cup {<<0, 0, 2>>, <<0, 1, 3>>}
Herm(d) == IF d = 2 THEN {<<<<<<p, 0>>, z>>, <<CConj(z), <<1, 0>>>>>> : p \in 0..1, z \in Ent}
           ELSE {<<<<<<1, 0>>, x, CMul(<<0, 1>>, x)>>, <<CConj(x), CZero, z>>, <<CConj(CMul(<<0, 1>>, x)), CConj(z), <<-1, 0>>>>>> : x \in Ent, z \in Ent}
Init == \/ /\ kind = "resp" /\ E \in Spectra /\ A \in Herm(Len(E)) /\ B \in Herm(Len(E)) /\ k \in -1..2
           /\ w2 \in {-3, 0, 1, 4} /\ h2 \in {1, 4} /\ T = None /\ ns = 0
        \/ /\ kind = "flow" /\ E = None /\ A = None /\ B = None /\ k = 0 /\ w2 = 0 /\ h2 = 0
           /\ T \in Amps \X Amps \X Amps /\ ns \in NSp
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Slack == Len(E) * Len(E) + 1
Close(x, y) == Abs(x - y) <= Slack
R(X, Y, sg, w) == Retarded(X, Y, E, m, k, sg, w, h2)
(* swapping the operators and the frequency: commutator odd, anticommutator even *)
Exchange == Close(R(A, B, -1, w2), -R(B, A, -1, -w2)) /\ Close(R(A, B, 1, w2), R(B, A, 1, -w2))
Positive == R(A, A, 1, w2) >= -Slack /\ (w2 > 0 => R(A, A, -1, w2) >= -Slack)
HotIsSilent == k = 0 => R(A, B, -1, w2) = 0
Same == k # -1 => Close(Optical(A, E, m, k, w2, h2), R(A, A, -1, w2))
Odd == k # -1 => Close(Optical(A, E, m, k, -w2, h2), -Optical(A, E, m, k, w2, h2))
RuleSign == SumRule(A, E, m, k) >= -Slack
ZeroEven == k = -1 => OpticalZero(A, E, w2, h2) = OpticalZero(A, E, -w2, h2) /\ OpticalZero(A, E, w2, h2) >= 0

(* an open path of three sites, not on a line *)
Path == [pos |-> <<<<0, 0>>, <<1, 0>>, <<1, 2>>>>, per |-> <<>>, g |-> <<1, 1>>]
Hop == [i \in 1..3 |-> [j \in 1..3 |-> [q \in 1..ns |->
         LET z(x) == IF q = 2 THEN CMul(<<0, 1>>, x) ELSE x
         IN CASE i = 1 /\ j = 2 -> z(T[1]) [] i = 2 /\ j = 1 -> CConj(z(T[1])) [] i = 2 /\ j = 3 -> z(T[2]) [] i = 3 /\ j = 2 -> CConj(z(T[2]))
              [] i = 1 /\ j = 3 -> z(T[3]) [] i = 3 /\ j = 1 -> CConj(z(T[3])) [] OTHER -> CZero]]]
S == [n |-> 3, ns |-> ns, b |-> 2, f |-> TRUE]
HCol(s) == FoldSet(LAMBDA x, acc : ColAdd(ColScale(CNeg(Hop[x[1]][x[2]][x[3]]),
              TwoCol(S, Cdag, Logical(S, x[1] - 1, x[3] - 1), Cann, Logical(S, x[2] - 1, x[3] - 1), TRUE, s)), acc),
              <<>>, {x \in (1..3) \X (1..3) \X (1..ns) : x[1] # x[2]})
(* total position along dir of the particles of a basis state *)
Centre(dir, s) == SumOver((1..3) \X (1..ns), LAMBDA x : Digit(S, s, Logical(S, x[1] - 1, x[2] - 1)) * (dir[1] * Path.pos[x[1]][1] + dir[2] * Path.pos[x[1]][2]))
Commutator(dir, s) == LET h == HCol(s) IN Prune([r \in DOMAIN h |-> CMul(<<0, Centre(dir, s) - Centre(dir, r)>>, h[r])])
Continuity == \A dir \in {<<1, 0>>, <<0, 1>>, <<1, 1>>} : \A s \in States(S) : Prune(CurrentCol(S, Path, Hop, dir, s)) = Commutator(dir, s)
Laws == IF kind = "resp" THEN Exchange /\ Positive /\ HotIsSilent /\ Same /\ Odd /\ RuleSign /\ ZeroEven
        ELSE Continuity
=============================================================================
