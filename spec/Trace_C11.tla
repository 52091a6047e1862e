------------------------------ MODULE Trace_C11 ------------------------------
(* C11: symmetry-reduced diagonalisation.  The driver finds the site cycles, builds the
   symmetry operators and projectors, builds and diagonalises the Hamiltonian in every
   sector; recorded are the power sums of each sector's energies (thousandths) and the
   largest matrix element connecting different sectors (millionths). *)
EXTENDS Sectors, TraceBase

Els(i) == CASE i.grp = "zn" -> 0..(i.n - 1) [] i.grp = "t2" -> (0..(i.n - 1)) \X (0..(i.n2 - 1))
            [] i.grp = "dn" -> DElems(i.n) [] OTHER -> WElems
Rep(i, u, g) == CASE i.grp = "zn" -> UPow(u[1], g) [] i.grp = "t2" -> UMul(UPow(u[1], g[1]), UPow(u[2], g[2]))
                  [] i.grp = "dn" -> DRep(u[1], u[2], i.n, g) [] OTHER -> WRep(u[1], u[2], u[3], u[4], g)
IsGroup(i, u) == CASE i.grp = "zn" -> IsRep1(u[1], i.n)
                   [] i.grp = "t2" -> IsRep1(u[1], i.n) /\ IsRep1(u[2], i.n2) /\ UMul(u[1], u[2]) = UMul(u[2], u[1])
                   [] i.grp = "dn" -> IsDihedral(u[1], u[2], i.n)
                   [] OTHER -> IsDihedral(u[1], u[2], 4) /\ IsRep1(u[3], 3) /\ UMul(u[3], u[4]) = UMul(u[4], u[3])
                               /\ UMul(u[1], u[3]) = UMul(u[4], u[1]) /\ UMul(u[2], u[4]) = UMul(u[4], u[2])
Within(a, b, t) == Abs(a - b) <= t
Order(i) == CASE i.grp = "zn" -> i.n [] i.grp = "t2" -> i.n * i.n2 [] i.grp = "dn" -> 2 * i.n [] OTHER -> 72

V_C11(s, e) ==
  LET i == e.inp
      o == e.out
      S == i.S
      bs == TLCEval(SetToSortSeq(SectorStates(S, i.ns), <))
      d == Len(bs)
      pos == TLCEval([x \in Rng(bs) |-> CHOOSE k \in 1..d : bs[k] = x])
      u == TLCEval([k \in 1..Len(i.perms) |-> SignedPerm(S, i.perms[k], bs, pos)])
      H == TLCEval([c \in 1..d |-> LET col == ModelCol(i, bs[c]) IN TLCEval([r \in {pos[x] : x \in DOMAIN col} |-> col[bs[r]]])])
      els == Els(i)
      reps == TLCEval([g \in els |-> Rep(i, u, g)])
      K == i.K
      pw == TLCEval([k \in 0..K |-> PowerCols(H, d, k)])
      tr == TLCEval([k \in 0..K |-> TLCEval([g \in els |-> TraceWith(reps[g], pw[k])])])
      ord == Order(i)
      fits(x, m, chr(_)) == \A k \in 0..K : PowerSumOk(o.m[x][k + 1], tr[k], m, chr, ord)
      N == Len(o.m)
      L2 == IF i.n % i.n2 = 0 THEN i.n ELSE IF i.n2 % i.n = 0 THEN i.n2 ELSE i.n * i.n2
      t2chr(x, g) == ZnChar(L2, o.k1[x] * g[1] * (L2 \div i.n) + o.k2[x] * g[2] * (L2 \div i.n2), 1)
      irr == IF i.grp = "dn" THEN DIrreps(i.n) ELSE WIrreps
      chr(w, g) == <<IF i.grp = "dn" THEN DChar(i.n, w, g) ELSE WChar(w, g), 0>>
      matches == CASE i.grp = "zn" -> N = i.n /\ \A x \in 1..N : fits(x, 1, LAMBDA g : ZnChar(i.n, x - 1, g))
                   [] i.grp = "t2" -> Len(o.k1) = N /\ \A x \in 1..N : fits(x, 1, LAMBDA g : t2chr(x, g))
                   [] OTHER -> LET hit == TLCEval([w \in irr |-> {x \in 1..N : fits(x, w.d, LAMBDA g : chr(w, g))}])
                               IN N = Cardinality(irr) /\ (\A w \in irr : hit[w] # {}) /\ UNION {hit[w] : w \in irr} = 1..N
  IN IF ~IsGroup(i, u) THEN {}
     ELSE IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
     ELSE Failing(<< <<"dimensions", SumSeq([x \in 1..N |-> o.d[x]]) = d>>,
                     <<"sector-spectra", matches>>,
                     <<"sectors-decouple", o.off <= 20>>,
                     <<"full-spectrum", \A k \in 0..K : Within(SumSeq([x \in 1..N |-> o.m[x][k + 1]]), o.full[k + 1], 3 * N + 3)
                                        /\ Within(o.full[k + 1], 1000 * CSum(1..d, LAMBDA c : Amp(pw[k][c], c))[1], 3)>> >>)
A_C11(s, e) == s
S_C11 == 0
=============================================================================
