------------------------------ MODULE Gen_C21 ------------------------------
(* Every history of bounded length over two objects and two files: construct, change a
   parameter, query, save, load.  Small stand-in values: object values are numbers. *)
EXTENDS ModelLife, Json, IOUtils
CONSTANTS Depth
VARIABLES A, B, f1, f2, hist
vars == <<A, B, f1, f2, hist>>
Init == A = 1 /\ B = 100 /\ f1 = 0 /\ f2 = 0 /\ hist = <<>> /\ TLCSet(1, <<>>)
Log(act, o, f) == hist' = Append(hist, [act |-> act, obj |-> o, file |-> f])
Save(o, f) == /\ LET v == IF o = "A" THEN A ELSE B IN IF f = 1 THEN f1' = v /\ UNCHANGED f2 ELSE f2' = v /\ UNCHANGED f1
              /\ UNCHANGED <<A, B>> /\ Log("save", o, f)
Load(o, f) == /\ LET v == IF f = 1 THEN f1 ELSE f2 IN v # 0 /\ IF o = "A" THEN A' = v /\ UNCHANGED B ELSE B' = v /\ UNCHANGED A
              /\ UNCHANGED <<f1, f2>> /\ Log("load", o, f)
Bump(o) == /\ IF o = "A" THEN A' = A + 1 /\ UNCHANGED B ELSE B' = B + 1 /\ UNCHANGED A
           /\ UNCHANGED <<f1, f2>> /\ Log("bump", o, 0)
Query(o) == UNCHANGED <<A, B, f1, f2>> /\ Log("query", o, 0)
Next == /\ Len(hist) < Depth
        /\ \E o \in {"A", "B"} : Bump(o) \/ Query(o) \/ \E f \in {1, 2} : Save(o, f) \/ Load(o, f)
Spec == Init /\ [][Next]_vars
(* a file always holds a value some object had, and loading never invents one *)
Vals == {1 + k : k \in 0..Depth} \cup {100 + k : k \in 0..Depth}
Known == A \in Vals /\ B \in Vals /\ f1 \in Vals \cup {0} /\ f2 \in Vals \cup {0}
Collect == Len(hist) = Depth => TLCSet(1, Append(TLCGet(1), hist))
Write == JsonSerialize(IOEnv.GENOUT, TLCGet(1))
=============================================================================
