----------------------------- MODULE MC_FermiGas -----------------------------
(* Laws that tie the definitions of FermiGas together: spectral sum rule, particle-hole
   symmetry, fluctuation-dissipation, completeness and the single-site limits. *)
EXTENDS FermiGas
CONSTANTS Sizes
VARIABLES n, d, b, m
vars == <<n, d, b, m>>
Init == n \in Sizes /\ d \in {1, 2} /\ b \in 0..3 /\ m \in {-8, -4, -2, 0, 2, 6}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Rs == Ks(n, d)
Levels == {Energy(n, d, k) : k \in Ks(n, d)}
SpectralSum == \A x \in Levels : \A q \in {-3, -1, 2, 5} :
  CAdd(Gfn("greater", b, 2 * x - m, q), CNeg(Gfn("lesser", b, 2 * x - m, q)))
    = CAdd(Gfn("retarded", b, 2 * x - m, q), CNeg(Gfn("advanced", b, 2 * x - m, q)))
ParticleHole == n % 2 = 0 => Abs(Density(n, d, b, m) + Density(n, d, b, -m) - U) <= 2
FluctuationDissipation ==
  Abs(RoundHalfUp(b * 253 * SumOver(Rs, LAMBDA r : Corr(n, d, r, b, m)), 365) - Compress(n, d, b, m)) <= 3 + b * Cardinality(Rs)
Completeness == Abs(SumOver(Rs, LAMBDA r : Bond(n, d, r, b, m)) - Occ(b, 2 * Energy(n, d, <<0, 0>>) - m)) <= Cardinality(Rs)
StaticUniform == Abs(Chi(n, d, <<0, 0>>, b, m, 0, 0)[1] + Compress(n, d, b, m)) <= 2
(* the static response is symmetric in the wave vector and non-positive *)
StaticSign == \A q \in Rs : Chi(n, d, q, b, m, 0, 0)[1] <= 1
OneSite == LET s == Singles(n, d, b, m, 2)
           IN /\ Abs(SinglesCorr(n, d, <<0, 0>>, b, m, 2) - Mul(s, U - s)) <= 6
              /\ LET x == Doubles(n, d, b, m, 2) IN Abs(DoublesCorr(n, d, <<0, 0>>, b, m, 2) - Mul(x, U - x)) <= 6
              /\ Abs(SxCorr(n, d, <<0, 0>>, b, m, 2) - s) <= 4
(* equal chemical potentials: the spin is isotropic *)
Isotropic == \A r \in Rs : Abs(SxCorr(n, d, r, b, m, m) - SzCorr(n, d, r, b, m, m)) <= 2
Laws == SpectralSum /\ ParticleHole /\ FluctuationDissipation /\ Completeness /\ StaticUniform /\ StaticSign /\ OneSite /\ Isotropic
=============================================================================
