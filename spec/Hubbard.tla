------------------------------ MODULE Hubbard ------------------------------
(* The lattice-fermion Hamiltonian as a function of what the user passes.
   G = [n, adj, ph]: adjacency (0/1) and link phases in quarter turns.
   Arguments carry their form: [form |-> "scalar"|"species"|"site"|"full", v |-> ...];
   numbers are complex or real integers (all energies multiplied by one common scale). *)
EXTENDS Fock

(* hopping amplitude t[i][j][k] (1-based), prefactor of -c+_i c_j *)
Hop(G, a, i, j, k) == CASE a.form = "full" -> a.v[i][j][k]
                        [] a.form = "scalar" -> CMul(a.v, CScale(G.adj[i][j], IPow(G.ph[i][j])))
                        [] a.form = "species" -> CMul(a.v[k], CScale(G.adj[i][j], IPow(G.ph[i][j])))
Near(G, a, i, j, k) == CASE a.form = "full" -> a.v[i][j][k]
                         [] a.form = "scalar" -> a.v * G.adj[i][j]
                         [] a.form = "species" -> a.v[k] * G.adj[i][j]
OnSite(a, i) == IF a.form = "scalar" THEN a.v ELSE a.v[i]
PerSpecies(a, k) == IF a.form = "scalar" THEN a.v ELSE a.v[k]
Pot(a, i, k) == CASE a.form = "scalar" -> a.v [] a.form = "species" -> a.v[k] [] OTHER -> a.v[i][k]

Occ(S, s, i, k) == Digit(S, s, Logical(S, i - 1, k - 1))   \* 1-based site and species
Sites(S) == 1..S.n
Specs(S) == 1..S.ns
HopPairs(S) == {<<i, j, k>> \in Sites(S) \X Sites(S) \X Specs(S) : i # j}

DiagU(S, a, s) == SumOver(Sites(S), LAMBDA i : IF OnSite(a, i) = 0 THEN 0 ELSE OnSite(a, i) * Occ(S, s, i, 1) * Occ(S, s, i, 2))
DiagV(S, G, a, s) == SumOver({<<i, j, k>> \in Sites(S) \X Sites(S) \X Specs(S) : i >= j},
                             LAMBDA x : Near(G, a, x[1], x[2], x[3]) * Occ(S, s, x[1], x[3]) * Occ(S, s, x[2], x[3]))
DiagMu(S, a, s) == SumOver(Sites(S) \X Specs(S), LAMBDA x : -PerSpecies(a, x[2]) * Occ(S, s, x[1], x[2]))
DiagPot(S, a, s) == SumOver(Sites(S) \X Specs(S), LAMBDA x : Pot(a, x[1], x[2]) * Occ(S, s, x[1], x[2]))
DiagCol(d, s) == IF d = 0 THEN <<>> ELSE [r \in {s} |-> <<d, 0>>]

(* hopping with weights w(i,j) *)
KinCol(S, G, a, w(_, _), s) ==
  LET act == {x \in HopPairs(S) : Hop(G, a, x[1], x[2], x[3]) # CZero /\ w(x[1], x[2]) # 0
                                  /\ Occ(S, s, x[2], x[3]) = 1 /\ Occ(S, s, x[1], x[3]) = 0}
  IN FoldSet(LAMBDA x, acc : ColAdd(ColScale(CScale(-w(x[1], x[2]), Hop(G, a, x[1], x[2], x[3])),
                 TwoCol(S, Cdag, Logical(S, x[1] - 1, x[3] - 1), Cann, Logical(S, x[2] - 1, x[3] - 1), TRUE, s)), acc),
             <<>>, act)
One(i, j) == 1

HamCol(S, G, p, s) ==
  ColAdd(KinCol(S, G, p.t, One, s),
         DiagCol(DiagU(S, p.u, s) + DiagV(S, G, p.v, s) + DiagMu(S, p.mu, s) + DiagPot(S, p.pot, s), s))

=============================================================================
