------------------------------- MODULE FlawGen -------------------------------
EXTENDS Flaw
VARIABLES n, sc
(* a well-formed message: [op, kind, tree]; extended expressions come as one tree of references *)
RECURSIVE GTree(_, _, _)
GTree(m, cx, k) ==
    LET w == m % 8
        x == TLCEval(CASE w = 0 -> [op |-> "agg", kind |-> "aggfn", t |-> GAgg(cx, 2)]
               [] w \in {1, 2} -> [op |-> "expr", kind |-> "Expr", t |-> GTop(cx)]
               [] w = 3 -> LET a == TLCEval(Chance(1, 2)) IN [op |-> "ext", kind |-> "Refs", t |-> Msg("x", <<As(IF a THEN "measure" ELSE "expression", NoSub(cx, a))>> \o TLCEval([j \in 1..RE(0..2) |-> Sc("output_names", "a")]))]
               [] w = 4 -> [op |-> "plan", kind |-> "Plan", t |-> Msg("p", GPlan(m \div 8))]
               [] OTHER -> [op |-> "rel", kind |-> "Rel", t |-> IF Chance(1, 10) THEN GMaskedR(0) ELSE GW(TopK(m \div 8 + w), Pick(<<1, 2, 2>>))]) IN
    IF k > 0 /\ OpenTree(x.t) THEN GTree(m, cx, k - 1) ELSE x
Keys(ps) == SetToSeq({ps[j].key : j \in DOMAIN ps})
GScn(m) ==
    LET cx == TLCEval(GSchema(0)) x == TLCEval(GTree(m, cx, 6)) w == RE(1..12)
        ps == TLCEval(Points(x.t, x.kind, FALSE)) key == TLCEval(Pick(Keys(ps)))
        pt == TLCEval(IF w <= 2 /\ x.t.c # <<>> THEN AnyPoint(x.t) ELSE Pick(SelectSeq(ps, LAMBDA p : p.key = key)))
        how == TLCEval(IF w = 12 THEN "none" ELSE IF w <= 2 /\ x.t.c # <<>> THEN "free" ELSE "aimed")
        t == TLCEval(IF how = "none" THEN x.t ELSE Damage(x.t, pt.path, pt.act, pt.arg)) IN
    [id |-> m, op |-> x.op, kind |-> x.kind, how |-> how, tag |-> IF how = "none" THEN "none." \o x.op ELSE IF how = "free" THEN "free" ELSE pt.key, sch |-> cx, t |-> t, fns |-> FnDecls]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Law: every aimed damage is a flaw, and what the grammar makes has none. *)
Law == sc.op # "none" => LET f == Flaws(sc.t, sc.kind, FALSE) IN (sc.how = "aimed" => f # <<>>) /\ (sc.how = "none" => f = <<>>)
=============================================================================
