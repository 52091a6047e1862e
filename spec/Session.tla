------------------------------ MODULE Session ------------------------------
(* A session of a user with shared objects (geometries, models, operators, states, tables).
   obj:  what every object is worth, fixed when the session starts;
   memo: question -> the answer it was given, wherever and whenever it was asked.
   A question is a calculation together with its arguments.  Asking changes no object; the
   answer is a function of the question; overwriting a returned array changes no object and
   no later answer. *)
EXTENDS Base, TLC

SNone == [obj |-> <<>>, memo |-> <<>>]
DoStart(st, o) == [obj |-> o, memo |-> <<>>]
Known(st, key) == key \in DOMAIN st.memo
DoAnswer(st, key, v) == IF Known(st, key) THEN st ELSE [st EXCEPT !.memo = (key :> v) @@ st.memo]
SameAnswer(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] - b[k] <= tol /\ b[k] - a[k] <= tol
Consistent(st, key, v, tol) == Known(st, key) => SameAnswer(st.memo[key], v, tol)
Undisturbed(st, o) == o = st.obj
=============================================================================
