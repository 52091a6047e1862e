------------------------------ MODULE Trace_C13 ------------------------------
(* C13: thermal weights, partition functions and thermal averages, in one space or
   combined over sectors. *)
EXTENDS Thermal, TraceBase

(* w: [temperature][state], z: [temperature], both times 2^m *)
VWeights(e) ==
  LET i == e.inp
      o == e.out
      ref == IF i.off THEN MinE(i.e) ELSE 0
  IN Failing(<< <<"weights", o.w = [t \in 1..Len(i.ks) |-> Weights(i.m, i.ks[t], i.e, ref)]>>,
                <<"partition-function", o.z = [t \in 1..Len(i.ks) |-> Z2(i.m, i.ks[t], i.e, ref)]>>,
                <<"argument-modified", o.pure>> >>)

VThermal(e) ==
  LET i == e.inp
      x == TLCEval([j \in 1..Len(i.v) |-> Expect(i.op, i.v[j])[1]])
      ref == MinE(i.e)
  IN Failing(<< <<"average", Len(e.out.r) = Len(i.ks) /\ \A t \in 1..Len(i.ks) :
                    IsRatio(e.out.r[t], 10000, Num2(i.m, i.ks[t], i.e, x, ref), Z2(i.m, i.ks[t], i.e, ref), 1)>>,
                <<"argument-modified", e.out.pure>> >>)

GlobalMin(ss) == Min({MinE(ss[k]) : k \in 1..Len(ss)})
VSectors(e) ==
  LET i == e.inp
      ref == GlobalMin(i.es)
  IN Failing(<< <<"sector-partition-functions",
                  e.out.z = [t \in 1..Len(i.ks) |-> [k \in 1..Len(i.es) |-> Z2(i.m, i.ks[t], i.es[k], ref)]]>>,
                <<"argument-modified", e.out.pure>> >>)

(* x[k][t][c]: average in sector k at temperature t, component c; nan[k][t] when undefined *)
VCombine(e) ==
  LET i == e.inp
      ref == GlobalMin(i.es)
      z(t, k) == Z2(i.m, i.ks[t], i.es[k], ref)
      zz(t) == SumSeq([k \in 1..Len(i.es) |-> z(t, k)])
      num(t, c) == SumSeq([k \in 1..Len(i.es) |-> IF z(t, k) = 0 THEN 0 ELSE z(t, k) * i.x[k][t][c]])
  IN Failing(<< <<"combined-average", Len(e.out.r) = Len(i.ks) /\ \A t \in 1..Len(i.ks) : Len(e.out.r[t]) = i.nc
                    /\ \A c \in 1..i.nc : IsRatio(e.out.r[t][c], 10000, num(t, c), zz(t), 1)>>,
                <<"argument-modified", e.out.pure>> >>)

VTrace(e) == Failing(<< <<"partition-function", e.out.z = Z2(e.inp.m, e.inp.k, e.inp.e, 0)>>, <<"argument-modified", e.out.pure>> >>)

V_C13(s, e) == IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
               ELSE CASE e.op = "weights" -> VWeights(e) [] e.op = "thermal" -> VThermal(e) [] e.op = "sectors" -> VSectors(e)
                      [] e.op = "combine" -> VCombine(e) [] e.op = "trace" -> VTrace(e) [] OTHER -> {"unknown-operation"}
A_C13(s, e) == s
S_C13 == 0
=============================================================================
