----------------------------- MODULE MC_Pipeline -----------------------------
(* Every schedule of the batch pipeline, with repeated jobs and lost files: the joined
   counts do not depend on which job ran when, nothing is joined from an incomplete set
   of files, and without losses the expansion is always reached. *)
EXTENDS Pipeline
CONSTANTS Order, MaxLost, Vals
VARIABLES st, rows, table, val, lost, truth      \* truth: what diagonalising each cluster gives
vars == <<st, rows, table, val, lost, truth>>
Min0(o) == CHOOSE c \in o : TRUE
Reps == LET R(k) == {Min0(o) : o \in Classes(Shapes(k), TRUE)} IN FlattenSeq([k \in 1..Order |-> SetToSeq(R(k))])
List == TLCEval([k \in 1..Len(Reps) |-> [s |-> SetToSeq(Reps[k])]])
Sizes == [k \in 1..Len(List) |-> Len(List[k].s)]
V0 == [cs |-> List, mult |-> [k \in 1..Len(List) |-> Cardinality(Orbit(Reps[k]))],
       edge |-> [k \in 1..(Order + 1) |-> Cardinality({x \in 1..Len(List) : Sizes[x] < k})]]
NC == Len(List)
File == TLCEval([i \in 1..NC |-> Counts(List, RowsOf(List, i))])
Whole == TLCEval(Counts(List, 1..NC))
(* joining: rows are taken from the first file that has them *)
RECURSIVE Join(_, _)
Join(i, acc) == IF i > NC THEN acc
                ELSE Join(i + 1, acc \cup {x \in rows[i] : ~\E y \in acc : y[1] = x[1]})
Init == st = Fresh(Order) /\ rows = [i \in 1..NC |-> {}] /\ table = {} /\ val = <<>> /\ lost = 0 /\ truth \in [1..NC -> Vals]
Run(op, i, v) == Can(st, op, i) /\ st' = After(st, op, i, v)
Gen == Run("gen", 0, V0) /\ UNCHANGED <<rows, table, val, lost>>
SubOne(i) == Run("sub", i, 0) /\ rows' = [rows EXCEPT ![i] = File[i]] /\ UNCHANGED <<table, val, lost>>
Sub == \E i \in 1..NC : SubOne(i)
AggSub == Run("aggsub", 0, 0) /\ table' = Join(1, {}) /\ UNCHANGED <<rows, val, lost>>
DiagOne(i) == Run("diag", i, truth[i]) /\ UNCHANGED <<rows, table, val, lost>>
Diag == \E i \in 1..NC : DiagOne(i)
AggRes == Run("aggres", 0, 0) /\ val' = ExpWeights([k \in 1..NC |-> st.d[k]], table) /\ UNCHANGED <<rows, table, lost>>
Lose == /\ lost < MaxLost /\ lost' = lost + 1
        /\ \/ \E i \in st.subs : st' = After(st, "losesub", i, 0) /\ rows' = [rows EXCEPT ![i] = {}] /\ UNCHANGED <<table, val>>
           \/ \E i \in DOMAIN st.d : st' = After(st, "losediag", i, 0) /\ UNCHANGED <<rows, table, val>>
           \/ HasList(st) /\ st' = After(st, "loselist", 0, 0) /\ UNCHANGED <<rows, table, val>>
           \/ st.agg /\ st' = After(st, "loseagg", 0, 0) /\ table' = {} /\ UNCHANGED <<rows, val>>
Next == (Gen \/ Sub \/ AggSub \/ Diag \/ AggRes \/ Lose) /\ UNCHANGED truth
Spec == Init /\ [][Next]_vars /\ WF_vars(Gen /\ UNCHANGED truth) /\ WF_vars(AggSub /\ UNCHANGED truth) /\ WF_vars(AggRes /\ UNCHANGED truth)
        /\ \A i \in 1..NC : WF_vars(i \notin st.subs /\ SubOne(i) /\ UNCHANGED truth) /\ WF_vars(i \notin DOMAIN st.d /\ DiagOne(i) /\ UNCHANGED truth)
Consistent == /\ st.agg => table = Whole
              /\ \A i \in st.subs : rows[i] = File[i]
              /\ st.res => Len(val) = NC
(* the joined weights are those of the definition: value minus all proper subclusters *)
Definition == st.res => \A k \in 1..NC : val[k] = truth[k] - SumOver(AllSubs(AsSet(List[k].s)) \ {AsSet(List[k].s)}, LAMBDA q :
                                  val[CHOOSE b \in 1..NC : Orbit(AsSet(List[b].s)) = Orbit(q)])
Finishes == <>(st.res)
=============================================================================
