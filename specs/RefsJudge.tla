------------------------------ MODULE RefsJudge ------------------------------
EXTENDS Refs, Judge
Ways(e, j) == e.ways[j]
RefV(e) ==
    LET root == Has(Rex(e.emsg), "expression") own == Struct0(e.ts)
        base == IF root THEN TypeOfE(As("e", Kid(Rex(e.emsg), "expression")), own) ELSE own
        want == IF e.path = <<>> THEN NoT ELSE ResT(base, e.path) ok == want # NoT IN
    Flat([j \in DOMAIN e.ways |-> LET w == e.ways[j] k == "refs." \o w.w IN
           Must(w.st = (IF ok THEN "ok" ELSE "err"), "P13", k \o (IF ok THEN ".refused" ELSE ".accepted"), w.st \o " " \o w.msg)
        \o IF w.st # "ok" \/ ~ok THEN <<>> ELSE
           Must(NormT(w.t) = NormT(want), "P13", k \o ".type", "type " \o ToString(w.t) \o " expected " \o ToString(want))
        \o Must(NormE(w.e) = NormE(e.emsg), "P13", k \o ".written", "written as " \o ToString(w.e))
        \o Must(w.back = "same", "P13", k \o ".readback", "read back with " \o w.back)
        \o Must(w.later = w.e, "P13", k \o ".later", "later building changed the reference to " \o ToString(w.later))])
ColV(e) ==
    LET k == e.cut left == SubSeq(e.ts, 1, k) sch(x) == CASE x = "whole" -> e.ts [] x = "left" -> left [] x = "emit" -> [j \in DOMAIN e.emit |-> e.ts[e.emit[j] + 1]] [] x = "joined" -> left \o e.us [] x = "joinedemit" -> [j \in DOMAIN e.emit |-> e.ts[e.emit[j] + 1]] \o left [] OTHER -> <<>> IN
    Flat([j \in DOMAIN e.cols |-> LET c == e.cols[j] cs == sch(c.w) kk == "refs.column." \o c.w ok == c.i >= 0 /\ c.i < Len(cs) IN
           Must(c.st = (IF ok THEN "ok" ELSE "err"), "P13", kk \o (IF ok THEN ".refused" ELSE ".accepted"), c.st \o " " \o c.msg)
        \o IF c.st # "ok" \/ ~ok THEN <<>> ELSE
           Must(NormT(c.t) = NormT(cs[c.i + 1]), "P13", kk \o ".type", "type " \o ToString(c.t))
        \o Must(NormE(c.e) = NormE(RefE(<<Seg("f", c.i, NilNode)>>, RootR)) , "P13", kk \o ".written", "written as " \o ToString(c.e))])
    \o Must([i \in 1..3 |-> [j \in DOMAIN e.schemas[i] |-> NormT(e.schemas[i][j])]] = [i \in 1..3 |-> LET x == <<e.ts, left, e.us>>[i] IN [j \in DOMAIN x |-> NormT(x[j])]], "P13", "refs.column.schemas", "the schemas became " \o ToString(e.schemas))
LamV(e) ==
    LET own == Struct0(e.ts) IN
    Flat([j \in DOMAIN e.builds |-> LET i == e.builds[j] o == e.obs[j] r == TLCEval(Bld(e.b, i, <<>>, own)) k == "refs.build." \o e.b[i].k IN
           Must((o.st = "ok") = r.ok, "P13", k \o (IF r.ok THEN ".refused" ELSE ".accepted"), o.st \o " " \o o.msg)
        \o IF o.st # "ok" THEN Must(o.st = "err" \/ r.ok \/ Reaches(e.b, i, "panic"), "P13", k \o ".crash", o.msg)
           ELSE IF ~r.ok THEN <<>> ELSE
           Must(NormT(o.t) = NormT(r.t), "P13", k \o ".type", "type " \o ToString(o.t) \o " expected " \o ToString(r.t))
        \o Must(NormE(o.e) = NormE(r.e), "P13", k \o ".written", "written as " \o ToString(o.e) \o " expected " \o ToString(r.e))
        \o Must(o.later = o.e, "P13", k \o ".later", "later building changed it to " \o ToString(o.later))])
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P13", "refs.hang." \o e.op, "no answer or fatal crash">>>> ELSE
    CASE e.op = "ref" -> RefV(e) [] e.op = "col" -> ColV(e) [] e.op = "lambda" -> LamV(e) [] OTHER -> <<>>
=============================================================================
