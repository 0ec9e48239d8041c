----------------------------- MODULE ExtSetGen -----------------------------
EXTENDS ExtSet
VARIABLES n, sc
GUrn(x) == Pick(<<"extension:t:a", "extension:t:a", "extension:t:b", "extension:t:b", "extension:t:z", "extension:t:A", "extension:t:a ", "extension:t:aa", "">>)
GAnchor(x) == Pick(<< <<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<0, 5>>, <<0, 7>>, <<0, 9>>, <<65535, 65535>>, <<1, 0>> >>)
GName(k) == CASE k = "type" -> Pick(<<"ta", "ta", "tb", "tb", "tc", "TA", "ta ", "">>) [] k = "var" -> Pick(<<"va", "va", "vb", "vb", "vA">>)
              [] k = "func" -> Pick(<<"f:i32", "f", "g:i32", "g:i64", "g", "h:i32", "w:i32", "w", "nope", "F:i32", "f:I32", "f:i32_i32", "f:", "">>)
GK(x) == Pick(<<"type", "var", "func", "func">>)
GDecls(us, m) == [j \in 1..m |-> LET k == GK(0) IN <<k, IF us = <<>> \/ Chance(1, 12) THEN GAnchor(0) ELSE Pick(us)[1], GAnchor(0), GName(k)>>]
Distinct(us) == LET RECURSIVE D(_) D(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o D(SelectSeq(Tail(s), LAMBDA x : x[1] # Head(s)[1])) IN D(us)
DistinctD(ds) == LET RECURSIVE D(_) D(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o D(SelectSeq(Tail(s), LAMBDA x : x[1] # Head(s)[1] \/ x[3] # Head(s)[3])) IN D(ds)
GParse(x) == LET us0 == [j \in 1..RE(0..3) |-> <<GAnchor(0), IF Chance(1, 25) THEN "extension:t:z" ELSE Pick(<<"extension:t:a", "extension:t:b">>)>>]
                 us == TLCEval(IF Chance(9, 10) THEN Distinct(us0) ELSE us0)
                 ds0 == TLCEval(IF us = <<>> THEN <<>> ELSE GDecls(us, RE(0..8)))
             IN [o |-> "parse", us |-> us, ds |-> IF Chance(9, 10) THEN DistinctD(ds0) ELSE ds0, k |-> "", id |-> <<"", "">>, a |-> Zero]
Blank == [o |-> "", us |-> <<>>, ds |-> <<>>, k |-> "", id |-> <<"", "">>, a |-> Zero]
GOp(x) == LET o == Pick(<<"get", "get", "get", "get", "get", "find", "lookup", "lookup", "write", "reread">>) k == GK(0) IN
    CASE o = "get" -> [Blank EXCEPT !.o = o, !.k = k, !.id = <<GUrn(0), GName(k)>>]
      [] o = "find" -> [Blank EXCEPT !.o = o, !.id = <<GUrn(0), "">>]
      [] o = "lookup" -> [Blank EXCEPT !.o = o, !.k = Pick(<<"type", "var", "scalar", "scalar", "agg", "window">>), !.a = GAnchor(0)]
      [] OTHER -> [Blank EXCEPT !.o = o]
GScn(m) == [id |-> m, op |-> "extset", tag |-> "", steps |-> (IF Chance(2, 3) THEN <<GParse(0)>> ELSE <<>>) \o [j \in 1..RE(2..14) |-> GOp(0)]]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none", tag |-> "", steps |-> <<>>]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
Law == \A j \in DOMAIN sc.steps : sc.steps[j].o = "parse" /\ Readable(sc.steps[j].us, sc.steps[j].ds) =>
          LET s == ReadState(sc.steps[j].us, sc.steps[j].ds) IN Unambiguous(s) /\ Consistent(s)
=============================================================================
