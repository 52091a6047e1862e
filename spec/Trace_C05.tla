------------------------------ MODULE Trace_C05 ------------------------------
(* C05: relabelling sites acts on many-body states as the unitary that moves every
   creation (or spin) operator. *)
EXTENDS Fock, Transform, TraceBase

Judge(e, S, f(_)) ==
  IF ~e.ok THEN {"raised"}
  ELSE IF ~e.exact THEN {"off-grid"}
  ELSE Failing(<< <<"matrix", SameColumns(e.out.m, e.inp, Dim(S), Dim(S), f)>>, <<"pure", e.out.pure>> >>)

VXform(e) ==
  LET S == e.inp.S
      sig == LogicalPerm(S, FromCycles(e.inp.cycles, S.n))
  IN Judge(e, S, LAMBDA c : XformCol(S, sig, c))
VSwap(e) ==
  LET S == e.inp.S
      a == e.inp.a
      b == e.inp.b
      cyc == IF a = b THEN <<>> ELSE << <<a, b>> >>
      sig == LogicalPermOn(S, FromCycles(cyc, S.n), e.inp.sp)
  IN Judge(e, S, LAMBDA c : XformCol(S, sig, c))
(* a geometric map: cycles found on the real geometry, then turned into an operator *)
VGeom(e) ==
  LET S == e.inp.S
      sig == LogicalPerm(S, SitePerm(e.inp.L, e.inp.sites, e.inp.t))
  IN Judge(e, S, LAMBDA c : XformCol(S, sig, c))
(* exchange of all up and down states *)
VFlip(e) == LET S == e.inp.S IN Judge(e, S, LAMBDA c : [r \in {Dim(S) - 1 - c} |-> C1])

V_C05(s, e) == CASE e.op = "xform" -> VXform(e) [] e.op = "swap" -> VSwap(e) [] e.op = "geom" -> VGeom(e)
                 [] e.op = "flip" -> VFlip(e) [] OTHER -> {"unknown-operation"}
A_C05(s, e) == s
S_C05 == 0
=============================================================================
