------------------------------ MODULE Gen_C03 ------------------------------
(* State machine over two named objects A and B (B starts as an equal copy of A);
   TLC enumerates every history of bounded length and writes them out, the driver
   replays each on the real Geometry class. *)
EXTENDS GeometryLife, Lattice, Json, IOUtils
CONSTANTS Depth, NPerm

(* four-site open square, distinct separations *)
L0 == WithBC(SquareL(2, 2), TRUE, TRUE)
S0 == <<<<0, 0>>, <<0, 2>>, <<2, 0>>, <<2, 2>>>>
G0 == [sites |-> S0, lat |-> 1, ph |-> [a \in 1..4 |-> [b \in 1..4 |-> 0]],
       dx |-> [a \in 1..4 |-> [b \in 1..4 |-> S0[a][1] - S0[b][1]]],
       dy |-> [a \in 1..4 |-> [b \in 1..4 |-> S0[a][2] - S0[b][2]]],
       adj |-> [a \in 1..4 |-> [b \in 1..4 |-> IF Adjacent(L0, S0[a], S0[b]) THEN 1 ELSE 0]]]
Perms == << <<1, 2, 3, 0>>, <<1, 0, 2, 3>>, <<3, 2, 1, 0>>, <<2, 0, 3, 1>> >>

VARIABLES A, B, hist
vars == <<A, B, hist>>
Init == A = G0 /\ B = G0 /\ hist = <<>> /\ TLCSet(1, <<>>)
Log(x) == hist' = Append(hist, x)
PermuteOp(o, k) == /\ IF o = "A" THEN A' = ApplyPerm(A, Perms[k]) /\ UNCHANGED B
                                 ELSE B' = ApplyPerm(B, Perms[k]) /\ UNCHANGED A
                   /\ Log([act |-> "permute", obj |-> o, arg |-> k])
SortOp(o, m) == /\ \E p \in Permutations(1..4) :
                      LET q == [j \in 1..4 |-> p[j] - 1]
                          g == IF o = "A" THEN A ELSE B
                      IN /\ SiteSorted(g, m, q)
                         /\ \A j \in 1..3 : SortKey(g, m, q[j] + 1) # SortKey(g, m, q[j + 1] + 1) \/ q[j] < q[j + 1]
                         /\ IF o = "A" THEN A' = ApplyPerm(A, q) /\ UNCHANGED B ELSE B' = ApplyPerm(B, q) /\ UNCHANGED A
                /\ Log([act |-> "sort-" \o m, obj |-> o, arg |-> 0])
CopyOp(o) == /\ IF o = "A" THEN B' = A /\ UNCHANGED A ELSE A' = B /\ UNCHANGED B
             /\ Log([act |-> "copy", obj |-> o, arg |-> 0])
BadOp(o) == Log([act |-> "badpermute", obj |-> o, arg |-> 0]) /\ UNCHANGED <<A, B>>
Next == /\ Len(hist) < Depth
        /\ \E o \in {"A", "B"} : \/ \E k \in 1..NPerm : PermuteOp(o, k)
                                 \/ \E m \in SortModes : SortOp(o, m)
                                 \/ CopyOp(o)
                                 \/ BadOp(o)
Spec == Init /\ [][Next]_vars

Coherent(g) == /\ Rng(g.sites) = Rng(S0)
               /\ \A a, b \in 1..4 : /\ g.adj[a][b] = (IF Adjacent(L0, g.sites[a], g.sites[b]) THEN 1 ELSE 0)
                                     /\ <<g.dx[a][b], g.dy[a][b]>> = VSub(g.sites[a], g.sites[b])
AlwaysCoherent == Coherent(A) /\ Coherent(B)
EqConsistent == (A.sites = B.sites) <=> SameGeom(A, B)
EqAdj == SameGeom(A, B) => SameAdjacency(A, B)
Collect == Len(hist) = Depth => TLCSet(1, Append(TLCGet(1), hist))
Write == JsonSerialize(IOEnv.GENOUT, TLCGet(1))
=============================================================================
