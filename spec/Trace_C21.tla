------------------------------ MODULE Trace_C21 ------------------------------
(* C21: histories of constructing, modifying, querying, saving and loading models.
   After every event the driver reports all live objects and the names of all files. *)
EXTENDS ModelLife, TraceBase

Objs == {"A", "B", "C"}
Files == {"f", "g"}
Val(o) == [h |-> {<<x[1], x[2], x[3], x[4]>> : x \in Rng(o.h.e)}, rest |-> <<o.h.nr, o.h.nc, o.rest>>, live |-> TRUE]
Expected(st, e) ==
  LET i == e.inp IN
  CASE e.op = "new" -> IF e.ok /\ ~e.mal /\ e.out.objs[i.obj].live THEN DoNew(st, i.obj, Val(e.out.objs[i.obj])) ELSE st
    [] e.op = "save" -> DoSave(st, i.obj, i.file)
    [] e.op = "load" -> DoLoad(st, i.obj, i.file)
    [] e.op = "bump" -> DoBump(st, i.obj, i.cls, i.nbits, i.w)
    [] e.op = "drop" -> [st EXCEPT !.file[i.file] = None]
    [] OTHER -> st
Views(st, e) ==
  Failing(<< <<"hamiltonian", \A o \in Objs : st.obj[o].live => e.out.objs[o].live /\ Val(e.out.objs[o]).h = st.obj[o].h>>,
             <<"attributes", \A o \in Objs : st.obj[o].live => e.out.objs[o].live /\ Val(e.out.objs[o]).rest = st.obj[o].rest>>,
             <<"files", Rng(e.out.files) = {f \in Files : st.file[f].live}>> >>)
V_C21(st, e) ==
  LET i == e.inp
      nx == Expected(st, e)
  IN CASE e.op = "reset" -> {}
       [] e.op = "badsave" -> (IF e.out.rejected THEN {} ELSE {"must-be-rejected"}) \cup Views(nx, e)
       [] e.op = "badload" -> (IF e.out.rejected THEN {} ELSE {"must-be-rejected"}) \cup Views(nx, e)
       [] ~e.ok -> {"raised"}
       [] ~e.exact -> {"off-grid"}
       [] e.op = "new" -> Views(nx, e) \cup Failing(<< <<"same-arguments-same-model", i.like = "" \/ st.obj[i.like] = nx.obj[i.obj]>> >>)
       [] e.op = "load" -> Views(nx, e) \cup Failing(<< <<"returned-object", Val(e.out.ret) = nx.obj[i.obj]>> >>)
       [] e.op = "save" -> Views(nx, e) \cup Failing(<< <<"returned-name", e.out.named>> >>)
       [] e.op = "restart" -> Views(nx, e) \cup Failing(<< <<"other-process", Val(e.out.ret) = st.file[i.file]>> >>)
       [] e.op \in {"bump", "query", "drop", "savedefault"} -> Views(nx, e) \cup
             (IF e.op = "savedefault" THEN Failing(<< <<"returned-name", e.out.named>>, <<"returned-object", Val(e.out.ret) = st.obj[i.obj]>> >>) ELSE {})
       [] OTHER -> {"unknown-operation"}
S_C21 == [obj |-> [o \in Objs |-> None], file |-> [f \in Files |-> None]]
A_C21(st, e) == IF e.op = "reset" THEN S_C21 ELSE IF e.op \in {"badsave", "badload"} \/ ~e.ok THEN st ELSE Expected(st, e)
=============================================================================
