------------------------------ MODULE BuildJudge ------------------------------
EXTENDS Build, Judge
Both(ok, p1, p2, key, why) == IF ok THEN <<>> ELSE <<<<p1, key, why>>, <<p2, key, why>>>>
NewV(k, want, o) ==
    Both(SameRel(o.r, want), "P18", "P14", k \o ".result", "became " \o ToString(o.r))
    \o (IF ~SchemaKnown(want) THEN <<>> ELSE Both(o.t = SchemaR(want), "P18", "P15", k \o ".schema", "schema " \o ToString(o.t) \o " expected " \o ToString(SchemaR(want))))
    \o (IF DeepWrite(want) THEN <<>> ELSE Must(o.back = "same", "P14", k \o ".readback", "read back " \o o.back)
        \o Must(o.back # "same" \/ ~SchemaKnown(want) \/ o.backt = o.t, "P15", k \o ".readschema", "schema after reading back " \o ToString(o.backt)))
SamePlanRel(g, w) ==
    Len(g.c) = 1 /\ g.c[1].k = w.c[1].k /\ (IF g.c[1].k = "rel" THEN SameRel(As("rel", g.c[1]), As("rel", w.c[1]))
        ELSE Kids(g.c[1], "names") = Kids(w.c[1], "names") /\ Has(g.c[1], "input") /\ SameRel(As("rel", Kid(g.c[1], "input")), As("rel", Kid(w.c[1], "input"))))
PlanV(st, pool, o) ==
    LET ok == PlanOk(pool, st) names == st.h = 0 \/ Len(st.names) = NFields(Struct0(SchemaR(pool[st.h]))) ps == IF ok THEN PlanParams(pool, st) ELSE <<>>
        bok == BindOk(ps, st.binds) k == "build.plan" IN
    IF ~ok THEN IF names THEN Must(o.st = "err", "P18", k \o ".accepted", o.st \o " " \o o.msg) ELSE Both(o.st = "err", "P20", "P18", k \o ".names", o.st \o " " \o o.msg)
    ELSE IF BindOpen(ps, st.binds) THEN Must(o.st # "panic", "P19", k \o ".bind.crash", o.msg)
    ELSE IF ~bok THEN Must(o.st = "err", "P19", k \o ".bind.accepted", o.st \o " " \o o.msg)
    ELSE IF o.st # "ok" THEN IF st.binds = <<>> THEN Both(FALSE, "P20", "P18", k \o ".refused", o.st \o " " \o o.msg) ELSE Must(FALSE, "P19", k \o ".bind.refused", o.st \o " " \o o.msg)
    ELSE LET ro == Kids(o.plan, "relations") want == PlanRels(pool, st)
             pbs == Kids(o.plan, "parameter_bindings")
             pb(s) == [j \in DOMAIN s |-> [a |-> Attr(s[j], "parameter_anchor", "0"), v |-> IF Has(s[j], "value") THEN NormLit(As("literal", Kid(s[j], "value"))) ELSE NilNode]] IN
         Both(Len(ro) = Len(want) /\ \A j \in DOMAIN ro : SamePlanRel(ro[j], want[j]), "P20", "P14", k \o ".relations", "written as " \o ToString(ro))
      \o Must([j \in DOMAIN Kids(o.plan, "expected_type_urls") |-> Kids(o.plan, "expected_type_urls")[j].p[1]] = st.urls, "P14", k \o ".urls", "expected type urls " \o ToString(Kids(o.plan, "expected_type_urls")))
      \o Both(pb(pbs) = [j \in DOMAIN st.binds |-> [a |-> st.binds[j].a, v |-> NormLit(As("literal", st.binds[j].v))]], "P19", "P14", k \o ".bindings", "bindings " \o ToString(pbs))
      \o Must(o.back = "same" \/ DeepWrite(pool[st.h]) \/ \E j \in DOMAIN st.others : DeepWrite(pool[st.others[j]]), "P14", k \o ".readback", "read back " \o o.back)
      \o Must(o.later = "same", "P16", k \o ".later", "later building changed the plan")
RECURSIVE BSteps(_, _, _, _)
BSteps(e, pool, j, acc) ==
    IF j > Len(e.steps) \/ acc # <<>> THEN acc ELSE
    LET st == e.steps[j] o == e.obs[j] k == "build." \o st.a IN
    IF st.a = "plan" THEN BSteps(e, pool, j + 1, acc \o PlanV(st, pool, o)
         \o (IF st.h = 0 \/ ~SchemaKnown(pool[st.h]) \/ HasWrite(pool[st.h]) THEN <<>>
             ELSE LET fits == Len(st.names) = NFields(Struct0(SchemaR(pool[st.h]))) IN
                  Must(o.rd = (IF fits THEN "ok" ELSE "err"), "P20", "build.plan.read" \o (IF fits THEN ".refused" ELSE ".accepted"), o.rd \o " " \o o.rdmsg))
         \o Must(o.old = "same", "P16", "build.plan.altered", "an existing relation changed: " \o o.old)) ELSE
    LET r == TLCEval(BRes(pool, st))
        v == Must((o.st = "ok") = r.ok /\ o.st # "panic", "P18", k \o (IF r.ok THEN ".refused" ELSE IF o.st = "panic" THEN ".crash" ELSE ".accepted"), o.st \o " " \o o.msg)
          \o Must(o.old = "same", "P16", k \o ".altered", "an existing relation changed: " \o o.old)
          \o (IF o.st = "ok" /\ r.ok THEN NewV(k, r.r, o) ELSE <<>>)
          \o (IF st.a \in {"aggcols", "aggexprs"} /\ r.ok THEN Must(o.st # "ok" \/ \A i \in DOMAIN st.ms : FilterOk(st.ms[i], Struct0(Cols(pool, st.h))), "P18", "build.measure.filter", "filter that is not boolean accepted") ELSE <<>>) IN
    \* after a call that went otherwise than specified the rest of the history says nothing
    IF (o.st = "ok") # r.ok THEN acc \o v ELSE BSteps(e, IF r.ok THEN Append(pool, r.r) ELSE pool, j + 1, acc \o v)
BuildV(e) == Must(e.rst = "ok", "P18", "build.read", e.rst \o " " \o e.rmsg) \o IF e.rst # "ok" THEN <<>> ELSE BSteps(e, e.first, 1, <<>>)
(* histories of aggregate builders: bs the builders, rs the relations built *)
RECURSIVE ASteps(_, _, _, _, _)
ASteps(e, bs, rs, j, acc) ==
    IF j > Len(e.steps) \/ acc # <<>> THEN acc ELSE
    LET s == e.steps[j] o == e.obs[j] pool == e.scans k == "build.agg." \o s.a b == TLCEval(IF s.b <= Len(bs) THEN bs[s.b] ELSE bs[1]) IN
    IF s.b > Len(bs) THEN ASteps(e, bs, rs, j + 1, acc) ELSE
    CASE s.a = "build" ->
            LET r == TLCEval(ABBuild(b, pool, e.es)) v == Must(o.st # "panic" /\ (o.st = "ok") = r.ok, "P18", k \o (IF r.ok THEN ".refused" ELSE ".accepted"), o.st \o " " \o o.msg)
                    \o (IF o.st = "ok" /\ r.ok THEN NewV(k, r.r, o) ELSE <<>>)
                    \o (IF r.ok THEN Must(o.st # "ok" \/ \A i \in DOMAIN b.ms : FilterOk(b.ms[i], Struct0(Cols(pool, b.h))), "P18", "build.measure.filter", "filter that is not boolean accepted") ELSE <<>>) IN
            ASteps(e, bs, IF r.ok THEN Append(rs, b) ELSE rs, j + 1, acc \o v)
      [] s.a = "tobuilder" -> ASteps(e, IF s.i <= Len(rs) THEN [bs EXCEPT ![s.b] = rs[s.i]] ELSE bs, rs, j + 1, acc)
      [] OTHER ->
            LET nb == TLCEval(ABStep(b, s)) want == IF s.a = "cube" /\ Len(s.refs) > 20 THEN "err" ELSE "ok"
                v == Must(o.st = want, "P18", k \o ".call", o.st \o " " \o o.msg)
                  \o Must(s.a # "expr" \/ (o.pos >= 0 /\ o.pos < Len(nb.es) /\ nb.es[o.pos + 1] = s.i), "P18", k \o ".index", "reference " \o ToString(o.pos)) IN
            ASteps(e, [bs EXCEPT ![s.b] = nb], rs, j + 1, acc \o v)
AggV(e) == ASteps(e, <<ABState(1, e.ms), ABState(2, e.ms)>>, <<>>, 1, <<>>) \o Must(e.later = "same", "P16", "build.agg.later", "a built relation changed later: " \o e.later)
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P18", "build.hang." \o e.op, "no answer or fatal crash">>>> ELSE
    CASE e.op = "build" -> BuildV(e) [] e.op = "agg" -> AggV(e) [] OTHER -> <<>>
=============================================================================
