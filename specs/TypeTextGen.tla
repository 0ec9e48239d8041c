----------------------------- MODULE TypeTextGen -----------------------------
EXTENDS TypeExpr
VARIABLES n, sc
GScn(m) ==
    IF m % 4 = 0 THEN LET s == TLCEval(GBadText(0)) IN [id |-> m, op |-> "bad", tag |-> "", text |-> s]
    ELSE LET t == TLCEval(IF m % 4 = 1 THEN GDerive(GFull, 1) ELSE GTE(GFull, RE(0..3)))
             y == TLCEval(GStyle(0))
         IN [id |-> m, op |-> "good", tag |-> t.k, t |-> t, text |-> Text(RT(t, y))]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
RECURSIVE WFE(_)
WFE(t) == /\ t.k \in {"list", "assign", "not"} => Len(t.c) = 1
          /\ t.k \in {"map", "decimal", "bin"} => Len(t.c) = 2
          /\ In(t.k, TSimple) => t.c = <<>>
          /\ \A j \in DOMAIN t.c : WFE(t.c[j])
Law == sc.op = "good" => WFE(sc.t) /\ Len(RT(sc.t, Canon)) > 0
=============================================================================
