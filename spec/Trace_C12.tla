------------------------------ MODULE Trace_C12 ------------------------------
(* C12: diagonalisation, overlaps, norms, expectation values, matrix elements, and
   time evolution of states. *)
EXTENDS LinAlg, TraceBase

VDiag(e) ==
  LET i == e.inp
      o == e.out
      d == Len(i.h)
      n == Len(o.e)
  IN Failing(<< <<"count", n = i.k /\ o.nr = d /\ o.nc = i.k>>,
                <<"ascending", \A k \in 1..(n - 1) : o.e[k] <= o.e[k + 1] + 2>>,
                <<"orthonormal", \A a, b \in 1..Len(o.g) : CNear(o.g[a][b], IF a = b THEN <<1000000, 0>> ELSE CZero, 20)>>,
                <<"eigenpairs", Len(o.res) = d /\ \A r \in 1..Len(o.res) : \A c \in 1..Len(o.res[r]) : CNear(o.res[r][c], CZero, 20)>>,
                <<"argument-modified", o.pure>> >>)
VNorms(e) == Failing(<< <<"norms", e.out.w = [k \in 1..Len(e.inp.psi) |-> NormSq(e.inp.psi[k])]>>, <<"argument-modified", e.out.pure>> >>)
VExp(e) == Failing(<< <<"expectation", e.out.w = [k \in 1..Len(e.inp.psi) |-> Expect(e.inp.op, e.inp.psi[k])[1]]>>,
                      <<"argument-modified", e.out.pure>> >>)
(* row-major list of <a_i|b_j> *)
VOvl(e) ==
  LET A == e.inp.a
      B == e.inp.b
      n == Len(B)
  IN Failing(<< <<"overlaps", e.out.w = [k \in 1..(Len(A) * n) |-> CInner(A[((k - 1) \div n) + 1], B[((k - 1) % n) + 1])]>>,
                <<"argument-modified", e.out.pure>> >>)
VMel(e) ==
  LET A == e.inp.v
      n == Len(A)
  IN Failing(<< <<"matrix-elements", e.out.w = [k \in 1..(n * n) |-> CInner(A[((k - 1) \div n) + 1], MatVec(e.inp.op, A[((k - 1) % n) + 1]))]>>,
                <<"argument-modified", e.out.pure>> >>)
(* flattened [basis state][time][initial state], times s *)
VEvolve(e) ==
  LET i == e.inp
      T == Len(i.m)
      S == Len(i.psi)
      d == Len(i.w)
      ev == TLCEval([t \in 1..T |-> TLCEval([p \in 1..S |-> Evolved(i.w, i.e, i.m[t], i.psi[p])])])
      want == [x \in 1..(d * T * S) |-> LET y == x - 1 IN ev[((y \div S) % T) + 1][(y % S) + 1][(y \div (S * T)) + 1]]
  IN Failing(<< <<"times", e.out.t = i.m>>, <<"evolved-states", e.out.psi = want>>,
                <<"shape", /\ S = 1 => e.out.sh = <<d, T>>
                           /\ (S > 1 /\ T > 1) => e.out.sh = <<d, T, S>> >>, <<"argument-modified", e.out.pure>> >>)

V_C12(s, e) == IF ~e.ok THEN {"raised"} ELSE IF ~e.exact THEN {"off-grid"}
               ELSE CASE e.op = "diag" -> VDiag(e) [] e.op = "norms" -> VNorms(e) [] e.op = "exp" -> VExp(e) [] e.op = "ovl" -> VOvl(e)
                      [] e.op = "melem" -> VMel(e) [] e.op = "evolve" -> VEvolve(e) [] OTHER -> {"unknown-operation"}
A_C12(s, e) == s
S_C12 == 0
=============================================================================
