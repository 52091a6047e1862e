----------------------------- MODULE TraceBase -----------------------------
(* Replays one recorded behaviour of the implementation.  Verdict(tst, e) is the
   set of specification clauses event e violates when the specification is in
   state tst; Advance(tst, e) is the specification state after e.  Every event gets
   a verdict; the result is written when the whole behaviour has been consumed. *)
EXTENDS Base, Json, IOUtils

CONSTANTS Verdict(_, _), Advance(_, _), StInit

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tpos, tst, tbad
tvars == <<tpos, tst, tbad>>

TInit == tpos = 1 /\ tst = StInit /\ tbad = <<>>
TStep == /\ tpos <= Len(Log)
         /\ LET e == Log[tpos]
                f == IF e.mal THEN {"malformed-result"} ELSE Verdict(tst, e)
            IN /\ tbad' = IF f = {} THEN tbad ELSE Append(tbad, [id |-> e.id, c |-> SetToSeq(f)])
               /\ tst' = Advance(tst, e)
         /\ tpos' = tpos + 1
TSpec == TInit /\ [][TStep]_tvars

(* evaluated as an invariant: writes the verdict in the final state *)
Finish == tpos = Len(Log) + 1 => JsonSerialize(IOEnv.VERDICT, [n |-> Len(Log), fails |-> tbad])
=============================================================================
