------------------------------ MODULE Trace_C23 ------------------------------
(* C23: sessions.  "ask" is a calculation on the shared objects, "fresh" the same question
   put to newly built objects in a new process, "scribble" overwrites the last result. *)
EXTENDS Session, TraceBase

Tol == 3
V_C23(st, e) ==
  CASE e.op = "start" -> IF e.ok THEN {} ELSE {"raised"}
    [] ~e.ok -> {"raised"}
    [] e.op = "ask" -> Failing(<< <<"answer-depends-on-history", Consistent(st, e.inp.key, e.out.v, Tol)>>,
                                  <<"calculation-changed-an-object", Undisturbed(st, e.out.objs)>> >>)
    [] e.op = "fresh" -> Failing(<< <<"answer-depends-on-history", Consistent(st, e.inp.key, e.out.v, Tol)>> >>)
    [] e.op = "scribble" -> Failing(<< <<"result-shares-storage", Undisturbed(st, e.out.objs)>> >>)
    [] OTHER -> {"unknown-operation"}
(* a disturbed object keeps its new worth, so that every disturbance is reported once *)
A_C23(st, e) ==
  IF ~e.ok \/ e.mal THEN st
  ELSE CASE e.op = "start" -> DoStart(st, e.out.objs)
         [] e.op = "ask" -> [DoAnswer(st, e.inp.key, e.out.v) EXCEPT !.obj = e.out.objs]
         [] e.op = "fresh" -> DoAnswer(st, e.inp.key, e.out.v)
         [] e.op = "scribble" -> [st EXCEPT !.obj = e.out.objs]
         [] OTHER -> st
S_C23 == SNone
=============================================================================
