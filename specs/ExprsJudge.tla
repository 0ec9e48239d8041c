----------------------------- MODULE ExprsJudge -----------------------------
EXTENDS Exprs, Judge
Cnt(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
BagEq(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Cnt(a, a[j]) = Cnt(b, a[j])
B(x) == IF x THEN "true" ELSE "false"
NullFree(t) == IF t.p = <<>> THEN t ELSE WithNull(t, "2")
Wire(e) ==
    LET k == "expr.wire." \o Rex(e.e).k want == NormE(e.e) t == TypeOfE(e.e, e.sch) IN
       Must(e.st = "ok", "P10", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(NormE(e.out) = want, "P10", k \o ".roundtrip", "written as " \o ToString(e.out))
    \o Must(e.arg = e.out, "P10", k \o ".funcarg", "as a function argument " \o ToString(e.arg))
    \o Must(e.out2 = e.out, "P10", k \o ".again", "read back and written again as " \o ToString(e.out2))
    \o Must(e.tst = "ok" \/ ~Known(t), "P10", k \o ".typecall", e.tst)
    \o (IF OpenType(e.e, e.sch) THEN Must(OpenNull(e.e) /\ e.tst = "ok" => e.typ.k = "bool", "P10", k \o ".type", "type " \o ToString(e.typ))
        ELSE Must(e.typ = t, "P10", k \o ".type", "type " \o ToString(e.typ) \o " expected " \o ToString(t)))
    \o Must(e.scalar = B(IsScalarE(e.e)), "P10", k \o ".scalar", "scalar: " \o e.scalar)
    \o Must(HasNaN(e.e) \/ HasSub(e.e) \/ e.eq = "truetruetrue", "P10", k \o ".notequal", "not equal to itself or to the expression read back: " \o e.eq)
    \o Must(e.str = "true" \/ (HasSub(e.e) /\ e.str = "false"), "P10", k \o ".text", "the expression read back prints differently or cannot be printed")
    \o Must(e.insame = e.e, "P10", k \o ".input", "the input was altered")
    \o Must(e.reg = "same", "P10", k \o ".anchors", "reading changed the declarations: " \o e.reg)
    \o Must(Rex(e.e).k \in {"scalar_function", "window_function"} => e.fid = <<DeclOf(Attr(Rex(e.e), "function_reference", "0")).u, DeclOf(Attr(Rex(e.e), "function_reference", "0")).n>>, "P10", k \o ".function", "function " \o ToString(e.fid))
Agg(e) ==
    LET k == "expr.agg" IN
       Must(e.st = "ok", "P10", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(NormAgg(e.out) = NormAgg(e.e), "P10", k \o ".roundtrip", "written as " \o ToString(e.out))
    \o Must(e.typ = NormT(Kid(e.e, "output_type").c[1]), "P10", k \o ".type", "type " \o ToString(e.typ))
    \o Must(e.str = "true", "P10", k \o ".text", "cannot be printed")
    \o Must(e.insame = e.e, "P10", k \o ".input", "the input was altered")
    \o Must(e.reg = "same", "P10", k \o ".anchors", "reading changed the declarations: " \o e.reg)
    \o Must(e.fid = <<DeclOf(Attr(e.e, "function_reference", "0")).u, DeclOf(Attr(e.e, "function_reference", "0")).n>>, "P10", k \o ".function", "function " \o ToString(e.fid))
(* what the accessors and exported fields say *)
View(e) == IF e.st # "ok" THEN <<>> ELSE LET k == "expr.view." \o (IF e.op = "agg" THEN "agg" ELSE Rex(e.e).k) IN
    Must(e.vst = "ok", "P25", k \o ".call", e.vst)
    \o IF e.vst # "ok" THEN <<>> ELSE
       Must((IF e.op = "agg" THEN Said(NormAgg(e.view)) = DefR(NormAgg(e.e)) ELSE Said(NormE(e.view)) = DefR(NormE(e.e))), "P25", k, "the accessors say " \o ToString(e.view))
Ext(e) ==
    LET k == "expr.ext" r == Kids(e.in, "referred_expr") o == Kids(e.out, "referred_expr") rest(x) == SelectSeq(x.c, LAMBDA y : y.k \notin {"referred_expr", "base_schema", "extension_urns", "extensions"}) IN
       Must(e.st = "ok", "P10", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must([j \in DOMAIN o |-> NormG(o[j])] = [j \in DOMAIN r |-> NormG(r[j])], "P10", k \o ".refs", "written as " \o ToString(o))
    \o Must(NormG(Kid(e.out, "base_schema")) = NormG(Kid(e.in, "base_schema")), "P10", k \o ".schema", ToString(Kid(e.out, "base_schema")))
    \o Must(rest(e.out) = rest(e.in), "P10", k \o ".rest", "written as " \o ToString(rest(e.out)))
    \o Must(BagEq(e.declsout, e.declsin), "P10", k \o ".decls", "declarations " \o ToString(e.declsout))
    \o Must(e.insame, "P10", k \o ".input", "the input was altered")
(* A visit: what was visited, what came out, what became of the original. *)
Visit(e) ==
    LET k == "expr.visit." \o e.how \o "." \o Rex(e.e).k ch == ChildrenE(e.e) cn == [j \in DOMAIN ch |-> NormE(ch[j])] vn == [j \in DOMAIN e.seen |-> NormE(e.seen[j])]
        want == IF e.how = "one" THEN One(e.e, e.s) ELSE IF e.how = "pre" THEN Pre(e.e, e.s) ELSE Post(e.e, e.s) IN
       Must(e.rst = "ok", "P11", k \o ".read", e.rst \o " " \o e.rmsg)
    \o IF e.rst # "ok" THEN <<>> ELSE
       Must(e.st = "ok", "P11", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       (IF e.how = "one" THEN Must(BagEq(vn, cn), "P11", k \o ".children", "visited " \o ToString(e.seen)) ELSE <<>>)
    \o Must(NormE(e.out) = NormE(want), "P11", k \o ".result", "rewritten to " \o ToString(e.out))
    \o Must(NormE(e.orig) = NormE(e.e), "P11", k \o ".original", "the original became " \o ToString(e.orig))
    \o Must(e.s # <<>> \/ e.same = "true", "P11", k \o ".identity", "nothing replaced but another expression returned")
    \o Must(e.ident = "true", "P11", k \o ".identvisit", "visiting without replacement returned another expression or altered it")
    \o Must(HasNaN(e.e) \/ HasNaN(e.out) \/ ((HasSub(e.e) \/ HasSub(e.out)) /\ e.eq = "false") \/ e.eq = B(NormE(want) = NormE(e.e)), "P11", k \o ".equals", "equal to the original: " \o e.eq)
Eq(e) ==
    LET k == "expr.eq." \o Rex(e.e).k same == NormE(e.e) = NormE(e.f) b == B(same) IN
       Must(e.rst \in {"okok", "okerr"}, "P12", k \o ".read", e.rst)
    \o IF e.rst # "okok" \/ HasNaN(e.e) \/ HasNaN(e.f) THEN <<>> ELSE
       Must(e.st = "ok", "P12", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must((e.ab = b /\ e.ba = b) \/ (HasSub(e.e) /\ e.ab = e.ba /\ e.ab = "false"), "P12", k \o (IF same THEN ".missed" ELSE ".wrong"), "Equals gives " \o e.ab \o "/" \o e.ba \o " expected " \o b)
    \o Must(e.aa = "true", "P12", k \o ".irreflexive", "not equal to itself")
    \o Must(e.args = e.ab, "P12", k \o ".funcargs", "FuncArgsEqual gives " \o e.args \o " and Equals " \o e.ab)
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P25", "expr.hang." \o e.op, "no answer or fatal crash">>, <<CASE e.op = "visit" -> "P11" [] e.op = "eq" -> "P12" [] OTHER -> "P10", "expr.hang." \o e.op, "no answer or fatal crash">>>> ELSE
    CASE e.op = "wire" -> Wire(e) \o View(e) [] e.op = "agg" -> Agg(e) \o View(e) [] e.op = "ext" -> Ext(e) [] e.op = "visit" -> Visit(e) [] e.op = "eq" -> Eq(e)
=============================================================================
