------------------------------ MODULE FuncsGen ------------------------------
EXTENDS Funcs
VARIABLES n, sc
GScn(m) ==
    LET d0 == TLCEval(GDef(0))
        \* at times a type argument, for which no list of value types is a fit, or no return type
        d1 == TLCEval(IF d0.params # <<>> /\ Chance(1, 25) THEN [d0 EXCEPT !.params[RE(DOMAIN d0.params)] = Nd("type", <<>>, <<Nd("i32", <<"2">>, <<>>)>>)] ELSE d0)
        d == TLCEval(IF Chance(1, 25) THEN [d1 EXCEPT !.ret = NilNode] ELSE d1)
        y == TLCEval([GStyle(0) EXCEPT !.up = FALSE])
        ls == TLCEval([j \in 1..3 |-> GArgs(d0)])
        probe == TLCEval(Inst(TLCEval(GTE(GConc, 1)), [ints |-> <<>>, anys |-> <<>>, disc |-> FALSE]))
    IN [id |-> m, op |-> "fn", tag |-> d.null, d |-> d, lists |-> ls, probe |-> probe,
        ptexts |-> [j \in DOMAIN d.params |-> CASE d.params[j].k = "enum" -> "" [] d.params[j].k = "type" -> "type" [] OTHER -> Text(RT(d.params[j], y))],
        rtext |-> IF IsNil(d.ret) THEN "" ELSE Text(RT(d.ret, y)), kind |-> Cyc(m, <<"scalar", "scalar", "aggregate", "window">>)]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
\* laws of the specification: strictness is monotone; a mirrored result has the mirrored nullability
Law == sc.op = "fn" /\ (\A j \in DOMAIN sc.d.params : sc.d.params[j].k # "type") => \A j \in DOMAIN sc.lists : LET as == sc.lists[j] IN
    /\ Match(sc.d, as, "deep", TRUE) => Match(sc.d, as, "outer", TRUE)
    /\ Match(sc.d, as, "outer", TRUE) => Match(sc.d, as, "loose", FALSE)
    /\ Match(sc.d, as, "deep", TRUE) => \A k \in DOMAIN as : MatchAt(sc.d, as[k], k, "deep", TRUE)
=============================================================================
