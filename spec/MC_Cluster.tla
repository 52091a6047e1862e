----------------------------- MODULE MC_Cluster -----------------------------
(* The growth process: start from one site and repeatedly add a neighbouring site,
   recording shapes only.  TLC explores every history up to MaxN sites and checks that
   growth reaches exactly the connected shapes and that multiplicities and embedding counts
   have the properties the expansion rests on. *)
EXTENDS Cluster
CONSTANTS MaxN
VARIABLES c
Init == c = {<<0, 0>>}
Next == Cardinality(c) < MaxN /\ \E p \in Boundary(c) : c' = Canon(c \cup {p})
Spec == Init /\ [][Next]_c

TypeOK == Connected(c) /\ Canon(c) = c /\ Cardinality(c) <= MaxN
(* removing a suitable site leaves a connected cluster: growth loses nothing *)
Peelable == Cardinality(c) > 1 => \E p \in c : Connected(c \ {p})
(* an orbit has 1, 2, 4 or 8 shapes and is shared by all of them *)
OrbitOK == Cardinality(Orbit(c)) \in {1, 2, 4, 8} /\ \A d \in Orbit(c) : Orbit(d) = Orbit(c)
(* connected subsets found by growth are all the connected subsets *)
SubsOK == AllSubs(c) = {s \in SUBSET c : Connected(s)}
(* inclusion-exclusion: weights defined by W(c) = P(c) - sum of W over proper connected subsets
   reproduce P; with P = number of sites only single sites have weight *)
RECURSIVE WSites(_)
WSites(d) == Cardinality(d) - SumOver(AllSubs(d) \ {d}, LAMBDA s : IF Cardinality(s) = 1 THEN 1 ELSE 0)
OnlySites == Cardinality(c) > 1 => WSites(c) = 0
(* every connected subset of a 3 x 3 block is reached by growth *)
Block == (0..2) \X (0..2)
Complete == c = {<<0, 0>>} => \A n \in 1..MaxN : LET sh == TLCEval(Shapes(n)) IN
               /\ \A s \in kSubset(n, Block) : Connected(s) <=> Canon(s) \in sh
               /\ Cardinality(sh) = <<1, 2, 6, 19, 63, 216, 760>>[n]
               /\ Cardinality(Classes(sh, TRUE)) = <<1, 1, 2, 5, 12, 35, 108>>[n]
               /\ Cardinality(sh) = SumOver(Classes(sh, TRUE), LAMBDA o : Cardinality(o))
=============================================================================
