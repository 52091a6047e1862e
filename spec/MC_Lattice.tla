----------------------------- MODULE MC_Lattice -----------------------------
(* Design check of Lattice.tla: a point walks over the plane by lattice and
   periodicity steps; `cls` is its equivalence class, tracked independently as the
   pair of lattice coordinates reduced by explicit search. *)
EXTENDS Lattice

CONSTANTS Bound

Lats == {[SquareL(n, m) EXCEPT !.f1 = 1, !.f2 = 1, !.fd = 4] : n \in 1..3, m \in 1..3}
        \cup {TiltedL(n, m) : n \in 0..2, m \in 0..2} 
        \cup {TriangleL(n, m) : n \in 1..3, m \in 1..3}
        \cup {HexL(n, m) : n \in 1..2, m \in 1..2}
Valid == {l \in Lats : ValidLattice(l) /\ l.p1 # VZero}

VARIABLES L, v, home
vars == <<L, v, home>>

Init == /\ L \in Valid
        /\ home \in CellSites(L)
        /\ v = home
PStep == \E p \in {L.p1, L.p2}, s \in {1, -1} : v' = VAdd(v, VScale(s, p)) /\ home' = home
LStep == \E p \in {L.l1, L.l2}, s \in {1, -1} :
            v' = VAdd(v, VScale(s, p)) /\ home' \in {h \in CellSites(L) : Equivalent(L, h, v')}
Near(w) == \A k \in 1..2 : Abs(w[k]) <= Bound
Next == (PStep \/ LStep) /\ Near(v') /\ UNCHANGED L
Spec == Init /\ [][Next]_vars

TypeOK == IsSite(L, v)
Representative == ReduceP(L, v) = home
Centred == InCentered(L, ReduceC(L, v)) /\ Equivalent(L, ReduceC(L, v), v)
Idempotent == ReduceP(L, home) = home /\ ReduceC(L, ReduceC(L, v)) = ReduceC(L, v)
Counted == Cardinality(CellSites(L)) = CellCount(L) /\ \A s \in CellSites(L) : InCell(L, s) /\ IsSite(L, s)
AdjSym == \A s \in CellSites(L) : Adjacent(L, s, v) = Adjacent(L, v, s)
AdjClass == \A s \in CellSites(L) : Reduced(L) => (Adjacent(L, s, v) <=> Adjacent(L, s, home))
(* a full turn around a periodic direction collects exactly the twist *)
Twist == PhaseGridOK(L, 144) => PhaseUnits(L, L.p1, 144) = ((144 * L.f1) \div L.fd) % 144 /\ PhaseUnits(L, L.p2, 144) = ((144 * L.f2) \div L.fd) % 144
PhaseHerm == PhaseGridOK(L, 144) => (PhaseUnits(L, v, 144) + PhaseUnits(L, VScale(-1, v), 144)) % 144 = 0
=============================================================================
