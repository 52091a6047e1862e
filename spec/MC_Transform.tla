---------------------------- MODULE MC_Transform ----------------------------
(* Design check of Transform.tla: rigid maps that respect the periods are applied one
   after another to the sites of a periodic cell.  perm is the accumulated relabelling,
   tracked by composing the induced site permutations; img is the accumulated image of
   every site, tracked geometrically.  The two must agree after every history. *)
EXTENDS Transform
CONSTANTS Bound, Sqr, Tri, Tilt
Lats == {SquareL(n, m) : n \in Sqr, m \in Sqr} \cup {TiltedL(n, m) : n \in Tilt, m \in Tilt}
        \cup {TriangleL(n, n) : n \in Tri}
Valid == {l \in Lats : ValidLattice(l) /\ l.p1 # VZero}
Rots(L) == {[k |-> "rot", n |-> n, u |-> VZero, w |-> VZero, c |-> c, cd |-> 2]
              : n \in IF L.qy = 1 THEN {1, 2, 4, -4} ELSE {1, 2, 3, 6, -3, -6}, c \in {VZero, VAdd(L.l1, L.l2), VScale(2, L.l1)}}
Mirrors(L) == {[k |-> "refl", n |-> 0, u |-> u, w |-> VZero, c |-> c, cd |-> 2]
              : u \in {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, -1>>}, c \in {VZero, L.l1}}
Invs(L) == {[k |-> "inv", n |-> 0, u |-> VZero, w |-> VZero, c |-> c, cd |-> 2] : c \in {VZero, L.l1, VAdd(L.l1, L.l2)}}
Shifts(L) == {[k |-> "trans", n |-> 0, u |-> VZero, w |-> w, c |-> VZero, cd |-> 1] : w \in {L.l1, L.l2}}
(* the linear part maps periods to periods *)
Respects(L, t) == t.k = "trans" \/ LET A == Lin(L.qy, t) dL == [L EXCEPT !.p1 = VScale(A[2], @), !.p2 = VScale(A[2], @)]
                                  IN InPeriod(dL, MatVec(A[1], L.p1)) /\ InPeriod(dL, MatVec(A[1], L.p2))
Maps(L, s) == {t \in Rots(L) \cup Mirrors(L) \cup Invs(L) \cup Shifts(L) : Respects(L, t) /\ IsClosed(L, s, t)}
VARIABLES L, sites, perm, img, steps, last
vars == <<L, sites, perm, img, steps, last>>
NoMap == [k |-> "none", n |-> 1, u |-> VZero, w |-> VZero, c |-> VZero, cd |-> 1]
Init == /\ L \in Valid
        /\ sites = SetToSortSeq(CellSites(L), LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
        /\ perm = [i \in 1..Len(sites) |-> i]
        /\ img = sites /\ steps = 0 /\ last = NoMap
(* images stay on the grid because every image is a site *)
Moved(t, v) == LET d == Den(L.qy, t) w == Image(L.qy, t, v) IN <<w[1] \div d, w[2] \div d>>
Next == /\ steps < Bound
        /\ \E t \in Maps(L, sites) : /\ perm' = Compose(SitePerm(L, sites, t), perm)
                                     /\ img' = [i \in 1..Len(sites) |-> ReduceP(L, Moved(t, img[i]))]
                                     /\ last' = t
        /\ steps' = steps + 1 /\ UNCHANGED <<L, sites>>
Spec == Init /\ [][Next]_vars
View == <<L, perm, img, last>>

Bijective == IsBij(perm)
Agree == \A i \in 1..Len(sites) : Equivalent(L, img[i], sites[perm[i]])
Isometry == Reduced(L) => \A i, j \in 1..Len(sites) : Adjacent(L, sites[i], sites[j]) <=> Adjacent(L, sites[perm[i]], sites[perm[j]])
CycleForm == LET c == Cycles(perm)
                 z == [a \in 1..Len(c) |-> [k \in 1..Len(c[a]) |-> c[a][k] - 1]]
             IN /\ FromCycles(z, Len(perm)) = perm
                /\ \A a \in 1..Len(c) : PermOrder(perm) % Len(c[a]) = 0
                /\ IsId(PermPow(perm, PermOrder(perm)))
                /\ \A k \in 1..(PermOrder(perm) - 1) : \E a \in 1..Len(c) : k % Len(c[a]) # 0
Orders == LET p == SitePerm(L, sites, last)
          IN CASE last.k \in {"refl", "inv"} -> IsId(Compose(p, p))
               [] last.k = "rot" -> IsId(PermPow(p, Abs(last.n)))
               [] last.k = "trans" -> LET lat == CHOOSE n \in 1..(Len(sites) + 1) : InPeriod(L, VScale(n, last.w)) /\ \A q \in 1..(n - 1) : ~InPeriod(L, VScale(q, last.w))
                                      IN PermOrder(p) = lat /\ \A i \in DOMAIN p : Len(Orbit(p, i)) = lat
               [] OTHER -> TRUE
Laws == Bijective /\ Agree /\ Isometry /\ CycleForm /\ Orders
=============================================================================
