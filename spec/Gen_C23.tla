------------------------------ MODULE Gen_C23 ------------------------------
(* Every session of bounded length over two objects, three questions and overwriting of
   results.  An ideal implementation answers from the object's value alone; the judgement of
   module Session must accept it in every history, and must reject an implementation that
   (Fault = 1) keeps the answer of the first question asked of an object, (2) changes the
   object when asked question 2, (3) hands out storage that later answers are read from. *)
EXTENDS Session, Json, IOUtils
CONSTANTS Depth, Fault
Objs == {"A", "B"}
Qs == 1..3
VARIABLES val, kept, st, bad, last, hist
vars == <<val, kept, st, bad, last, hist>>
Value0 == [o \in Objs |-> IF o = "A" THEN 10 ELSE 20]
View(v) == [o \in Objs |-> v[o]]
Key(o, q) == <<o, q>>
Init == /\ val = Value0 /\ kept = [o \in Objs |-> 0] /\ st = DoStart(SNone, View(Value0)) /\ bad = FALSE
        /\ last = "" /\ hist = <<>> /\ TLCSet(1, <<>>)
True_(o, q) == val[o] * 7 + q
Ans(o, q) == IF Fault = 1 /\ kept[o] # 0 THEN kept[o] ELSE IF Fault = 3 /\ kept[o] # 0 THEN kept[o] ELSE True_(o, q)
Ask(o, q) ==
  LET v == Ans(o, q)
      nv == IF Fault = 2 /\ q = 2 THEN [val EXCEPT ![o] = @ + 1] ELSE val
  IN /\ val' = nv
     /\ kept' = IF Fault = 1 /\ kept[o] = 0 THEN [kept EXCEPT ![o] = v] ELSE kept
     /\ bad' = (bad \/ ~Consistent(st, Key(o, q), <<v>>, 0) \/ ~Undisturbed(st, View(nv)))
     /\ st' = [DoAnswer(st, Key(o, q), <<v>>) EXCEPT !.obj = View(nv)]
     /\ last' = o
     /\ hist' = Append(hist, [act |-> "ask", obj |-> o, q |-> q])
Scribble ==
  /\ last # ""
  /\ kept' = IF Fault = 3 THEN [kept EXCEPT ![last] = 77] ELSE kept
  /\ last' = "" /\ UNCHANGED <<val, st, bad>>
  /\ hist' = Append(hist, [act |-> "scribble", obj |-> "", q |-> 0])
(* fresh answers at the end: what a newly built object says to every question asked *)
FreshBad == \E k \in DOMAIN st.memo : ~Consistent(st, k, <<Value0[k[1]] * 7 + k[2]>>, 0)
Next == Len(hist) < Depth /\ (Scribble \/ \E o \in Objs, q \in Qs : Ask(o, q))
Spec == Init /\ [][Next]_vars
Accepted == Fault = 0 => ~bad /\ ~FreshBad
(* a fault that has had an effect on an answer or an object is noticed *)
Effect == \/ \E o \in Objs : val[o] # Value0[o]
          \/ \E k \in 1..Len(hist) : hist[k].act = "ask" /\ st.memo[Key(hist[k].obj, hist[k].q)] # <<Value0[hist[k].obj] * 7 + hist[k].q>>
Noticed == Effect => (bad \/ FreshBad)
Collect == Len(hist) = Depth => TLCSet(1, Append(TLCGet(1), hist))
Write == JsonSerialize(IOEnv.GENOUT, TLCGet(1))
=============================================================================
