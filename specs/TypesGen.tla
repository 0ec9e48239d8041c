------------------------------ MODULE TypesGen ------------------------------
EXTENDS Types
VARIABLES n, sc
Structs(pool) == {h \in DOMAIN pool : pool[h].k = "struct"}
GStep(pool) ==
    LET o == Pick(<<"null", "null", "null", "list", "struct", "concat", "concat", "sub", "reg", "reg", "name", "proto">>)
        o2 == IF o \in {"concat", "sub"} /\ Structs(pool) = {} THEN "struct" ELSE o
        h == IF o2 \in {"concat", "sub"} THEN RE(Structs(pool)) ELSE RE(DOMAIN pool)
        g == IF o2 = "concat" THEN RE(Structs(pool)) ELSE RE(DOMAIN pool)
        nm == Pick(RegNames)[1]
        snm == Pick(<<"i8", "i32", "string", "boolean", "date", "timestamp", "interval_year", "uuid">>)
    IN [o |-> o2, h |-> h, g |-> g, n |-> RE(0..2), s |-> IF o2 = "name" THEN snm ELSE IF o2 = "reg" THEN nm \o Pick(<<"", "?">>) ELSE ""]
RECURSIVE GSteps(_, _)
GSteps(pool, k) == IF k = 0 THEN <<>> ELSE
    LET st == TLCEval(GStep(pool)) IN <<st>> \o GSteps(TLCEval(Append(pool, Derive(pool, st))), k - 1)
GScn(m) ==
    LET w == m % 10 IN
    IF (Prop = "P01") \/ (Prop # "P02" /\ w < 5) THEN
        LET t == TLCEval(GKind(Cyc(m, AllKinds), RE(1..4))) IN [id |-> m, op |-> "rt", tag |-> t.k, t |-> t]
    ELSE IF w < 7 THEN
        LET t == TLCEval(NormT(GKind(Cyc(m, AllKinds), RE(1..3))))
            u == TLCEval(NormT(CASE w < 5 -> MutT(t) [] w = 5 -> t [] w = 6 -> GKind(Cyc(RE(1..40), AllKinds), 2))) IN
        [id |-> m, op |-> "eq", tag |-> t.k, t |-> t, u |-> u]
    ELSE
        LET p == TLCEval([j \in 1..3 |-> NormT(GKind(Cyc(m + j, AllKinds \o <<"struct", "struct">>), 1))])
            p2 == TLCEval(Append(p, Nd("struct", <<"2", "0">>, p)))
        IN [id |-> m, op |-> "hist", tag |-> "", pool |-> p2, steps |-> GSteps(p2, RE(1..8))]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws of the specification itself, checked on every generated case. *)
Law == /\ sc.op = "rt" => WFT(sc.t) /\ WFT(NormT(sc.t)) /\ NormT(NormT(sc.t)) = NormT(sc.t)
       /\ sc.op = "eq" => WFT(sc.t) /\ WFT(sc.u) /\ (SameType(sc.t, sc.u) <=> SameType(sc.u, sc.t))
       /\ sc.op = "hist" => \A j \in DOMAIN sc.pool : WFT(sc.pool[j])
=============================================================================
