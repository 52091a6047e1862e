----------------------------- MODULE ModelLife -----------------------------
(* The life of model objects and of the files they are stored in.  An object is
   [h, rest]: the entries <<row, column, re, im>> of its Hamiltonian and everything else a
   user can observe of it (opaque).  Files hold such values. *)
EXTENDS Base

None == [h |-> {}, rest |-> <<>>, live |-> FALSE]
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
(* lowering every chemical potential by one (fermions) / every field by two (spins one half)
   adds w times the particle number / magnetisation to the Hamiltonian *)
Charge(cls, nbits, s) == IF cls = "fermion" THEN Ones(s) ELSE nbits - 2 * Ones(s)
AddDiag(h, cls, nbits, w) ==
  LET off == {x \in h : x[1] # x[2]}
      d(s) == LET E == {x \in h : x[1] = s /\ x[2] = s} IN IF E = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in E : TRUE IN <<x[3], x[4]>>
      new == {<<s, s, d(s)[1] + w * Charge(cls, nbits, s), d(s)[2]>> : s \in 0..(Pow(2, nbits) - 1)}
  IN off \cup {x \in new : x[3] # 0 \/ x[4] # 0}

(* store: [obj |-> [name -> value], file |-> [name -> value]] *)
DoNew(st, o, v) == [st EXCEPT !.obj[o] = v]
DoSave(st, o, f) == [st EXCEPT !.file[f] = st.obj[o]]
DoLoad(st, o, f) == [st EXCEPT !.obj[o] = st.file[f]]
DoBump(st, o, cls, nbits, w) == [st EXCEPT !.obj[o].h = AddDiag(@, cls, nbits, w)]
=============================================================================
