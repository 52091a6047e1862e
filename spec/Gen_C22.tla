------------------------------ MODULE Gen_C22 ------------------------------
(* All schedules of the batch pipeline for two clusters that end with a result, with up to
   Extra disturbances: a job run too early, run again, or a file lost. *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS Extra
VARIABLES st, hist, left
vars == <<st, hist, left>>
L2 == <<[s |-> <<<<0, 0>>>>], [s |-> <<<<0, 0>>, <<1, 0>>>>]>>
V0 == [cs |-> L2, mult |-> <<1, 2>>, edge |-> <<0, 1, 2>>]
Init == st = Fresh(2) /\ hist = <<>> /\ left = Extra /\ TLCSet(1, <<>>)
Jobs == {<<"gen", 0>>, <<"sub", 1>>, <<"sub", 2>>, <<"aggsub", 0>>, <<"diag", 1>>, <<"diag", 2>>, <<"aggres", 0>>}
Done(j) == CASE j[1] = "gen" -> HasList(st) [] j[1] = "sub" -> j[2] \in st.subs [] j[1] = "diag" -> j[2] \in DOMAIN st.d
             [] j[1] = "aggsub" -> st.agg [] OTHER -> st.res
Val(j) == IF j[1] = "gen" THEN V0 ELSE 1
Log(j) == hist' = Append(hist, [op |-> j[1], i |-> j[2]])
Work == \E j \in Jobs : Can(st, j[1], j[2]) /\ ~Done(j) /\ st' = After(st, j[1], j[2], Val(j)) /\ Log(j) /\ UNCHANGED left
Early == \E j \in Jobs : ~Can(st, j[1], j[2]) /\ left > 0 /\ left' = left - 1 /\ Log(j) /\ UNCHANGED st
Again == \E j \in Jobs : Can(st, j[1], j[2]) /\ Done(j) /\ left > 0 /\ left' = left - 1 /\ st' = After(st, j[1], j[2], Val(j)) /\ Log(j)
Lost == /\ left > 0 /\ left' = left - 1
        /\ \/ \E i \in st.subs : st' = After(st, "losesub", i, 0) /\ Log(<<"losesub", i>>)
           \/ \E i \in DOMAIN st.d : st' = After(st, "losediag", i, 0) /\ Log(<<"losediag", i>>)
           \/ HasList(st) /\ st' = After(st, "loselist", 0, 0) /\ Log(<<"loselist", 0>>)
           \/ st.agg /\ st' = After(st, "loseagg", 0, 0) /\ Log(<<"loseagg", 0>>)
Next == ~st.res /\ (Work \/ Early \/ Again \/ Lost)
Spec == Init /\ [][Next]_vars
(* results exist only when everything they are made of did *)
Sound == st.res => st.agg /\ DOMAIN st.d = 1..2
Collect == st.res => TLCSet(1, Append(TLCGet(1), hist))
Write == JsonSerialize(IOEnv.GENOUT, TLCGet(1))
=============================================================================
