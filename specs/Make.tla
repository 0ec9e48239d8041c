--------------------------------- MODULE Make ---------------------------------
(* Building expressions through the expression API. The parts (builders and constructed nodes) form a graph; a part says
   what was asked for. Mk(b, j, ctx, sch) is what building part j must give: [st: "ok" | "bad" (refused) | "open", e: the
   message, t: its type]. A setter replaces one field of a part (Put), so a later build sees it and what was built before
   stays as it was. Functions are resolved among FD by compound name, by a plain name that stands for one implementation,
   or by the plain name and the argument types, and typed as Funcs says. *)
EXTENDS Refs
FN == INSTANCE Funcs
CN == INSTANCE Collection

(* ---- the functions of two extension files ---- *)
AnyP(v) == Nd("any", <<"2", v>>, <<>>)
P0(k) == Nd(k, <<"2">>, <<>>)
PN(k) == Nd(k, <<"1">>, <<>>)
EnumPar == Nd("enum", <<"A">>, <<>>)
Pt == Nd("udt", <<"2", "point">>, <<>>)
DecP == Nd("decimal", <<"2">>, <<Nd("var", <<"P">>, <<>>), Nd("var", <<"S">>, <<>>)>>)
UM == "extension:test:make"
UO == "extension:test:more"
Fn(u, kind, name, params, var, null, ret, dec) == [u |-> u, kind |-> kind, name |-> name, params |-> params, var |-> var, null |-> null, ret |-> ret, dec |-> dec]
FD == <<
    Fn(UM, "scalar", "plus", <<AnyP("any1"), AnyP("any1")>>, <<>>, "MIRROR", AnyP("any1"), ""),
    Fn(UM, "scalar", "ov", <<P0("i32")>>, <<>>, "MIRROR", P0("i32"), ""),
    Fn(UM, "scalar", "ov", <<P0("string")>>, <<>>, "MIRROR", P0("string"), ""),
    Fn(UM, "scalar", "ov", <<P0("i32"), P0("i32")>>, <<>>, "DECLARED_OUTPUT", PN("i64"), ""),
    Fn(UM, "scalar", "ov", <<Pt>>, <<>>, "MIRROR", P0("bool"), ""),
    Fn(UM, "scalar", "ov", <<Nd("list", <<"2">>, <<AnyP("any1")>>)>>, <<>>, "MIRROR", AnyP("any1"), ""),
    Fn(UM, "scalar", "ov", <<EnumPar, P0("i64")>>, <<>>, "MIRROR", P0("i64"), ""),
    Fn(UM, "scalar", "dec2", <<DecP, DecP>>, <<>>, "MIRROR", DecP, ""),
    Fn(UM, "scalar", "disc", <<PN("i32"), P0("bool")>>, <<>>, "DISCRETE", PN("i32"), ""),
    Fn(UM, "scalar", "opt", <<EnumPar, P0("i32")>>, <<>>, "MIRROR", P0("i32"), ""),
    Fn(UM, "scalar", "vari", <<P0("i32"), AnyP("any1")>>, <<1, 3, "CONSISTENT">>, "MIRROR", AnyP("any1"), ""),
    Fn(UM, "scalar", "mixd", <<P0("string")>>, <<0, 0, "INCONSISTENT">>, "DECLARED_OUTPUT", P0("bool"), ""),
    Fn(UM, "scalar", "mkpt", <<P0("i32")>>, <<>>, "MIRROR", Pt, ""),
    Fn(UM, "scalar", "usept", <<Pt>>, <<>>, "MIRROR", P0("i32"), ""),
    Fn(UM, "scalar", "apply", <<Nd("list", <<"2">>, <<AnyP("any1")>>), Nd("func", <<"2">>, <<AnyP("any1"), AnyP("any2")>>)>>, <<>>, "MIRROR", Nd("list", <<"2">>, <<AnyP("any2")>>), ""),
    Fn(UM, "scalar", "zero", <<>>, <<>>, "MIRROR", P0("i64"), ""),
    Fn(UM, "scalar", "mix", <<P0("i32")>>, <<>>, "MIRROR", P0("i32"), ""),
    Fn(UM, "aggregate", "mix", <<P0("string")>>, <<>>, "MIRROR", P0("string"), "NONE"),
    Fn(UM, "aggregate", "agg", <<AnyP("any1")>>, <<>>, "MIRROR", AnyP("any1"), "NONE"),
    Fn(UM, "aggregate", "cnt", <<>>, <<>>, "DECLARED_OUTPUT", P0("i64"), "MANY"),
    Fn(UM, "aggregate", "both", <<P0("i32")>>, <<>>, "MIRROR", P0("i32"), "ONE"),
    Fn(UM, "window", "both", <<P0("i32")>>, <<>>, "DECLARED_OUTPUT", PN("string"), "NONE"),
    Fn(UM, "window", "wf", <<P0("i32")>>, <<>>, "MIRROR", P0("i32"), "NONE"),
    Fn(UM, "window", "wm", <<AnyP("any1"), P0("bool")>>, <<>>, "DECLARED_OUTPUT", P0("i64"), "MANY"),
    Fn(UO, "scalar", "plus", <<AnyP("any1"), AnyP("any1")>>, <<>>, "DECLARED_OUTPUT", PN("string"), ""),
    Fn(UO, "scalar", "ov", <<P0("i8")>>, <<>>, "MIRROR", P0("i8"), ""),
    Fn(UO, "aggregate", "agg", <<P0("bool")>>, <<>>, "DECLARED_OUTPUT", PN("i32"), "MANY")>>
Comp(d) == d.name \o ":" \o JoinStr([j \in DOMAIN d.params |-> IF d.params[j].k = "enum" THEN "req" ELSE CN!Short(d.params[j])], "_")
FD1 == TLCEval([j \in DOMAIN FD |-> FD[j] @@ ("comp" :> Comp(FD[j]))])
(* aggregates serve as window functions, unless the file declares that window function itself *)
Cands(kind, u) == SelectSeq(FD1, LAMBDA d : d.u = u /\ (d.kind = kind \/ (kind = "window" /\ d.kind = "aggregate" /\ ~\E j \in DOMAIN FD1 : FD1[j].u = u /\ FD1[j].kind = "window" /\ FD1[j].comp = d.comp)))
ConcShort(t) == CASE t.k = "enum" -> "req" [] t.k = "user_defined" -> "u!" \o FN!UdtNames[atoi(t.p[3])]
                  [] OTHER -> CN!Short(t)
(* declarations a reference by name may mean: a sequence of at most one *)
Resolved(kind, u, name, full, ts) ==
    LET cs == Cands(kind, u) by(c) == SelectSeq(cs, LAMBDA d : d.comp = c)
        plain == {FD1[j].comp : j \in {j \in DOMAIN FD1 : FD1[j].u = u /\ FD1[j].name = name}} IN
    IF by(name) # <<>> THEN by(name)
    ELSE IF Cardinality(plain) = 1 /\ by(CHOOSE c \in plain : TRUE) # <<>> THEN by(CHOOSE c \in plain : TRUE)
    ELSE IF full THEN <<>>      \* a compound name is taken as it is
    ELSE by(name \o ":" \o JoinStr([j \in DOMAIN ts |-> ConcShort(ts[j])], "_"))
KnownUdts(t) == t.k # "user_defined" \/ \E a \in DOMAIN FN!UdtNames : ToString(a) = t.p[3]
(* "ok" with the type, "bad", or "open" *)
Typed(d, ts) ==
    LET anon == FN!Match(d, ts, "outer", FALSE) deep == FN!Match(d, ts, "deep", TRUE) r == FN!Resolve(d, ts) IN
    IF \E j \in DOMAIN ts : d.params # <<>> /\ ~FN!VarClean(FN!ParamAt(d, j), ts[j]) THEN [st |-> "open", t |-> NoT]
    ELSE IF ~anon THEN [st |-> "bad", t |-> NoT]
    ELSE IF ~deep \/ r.k \in {"err", "?"} THEN [st |-> "open", t |-> NoT]
    ELSE [st |-> "ok", t |-> r]

(* ---- building ---- *)
MBad == [st |-> "bad", e |-> NilNode, t |-> NoT, f |-> ""]
MOpen == [MBad EXCEPT !.st = "open"]
MGood(e, t) == [st |-> "ok", e |-> e, t |-> NormT(t), f |-> ""]
AllOk(rs) == \A j \in DOMAIN rs : rs[j].st = "ok"
Blame(rs) == IF \E j \in DOMAIN rs : rs[j].st = "bad" THEN MBad ELSE MOpen
ArgM(r) == Msg("arguments", <<IF r.e.k = "enum" THEN r.e ELSE As("value", r.e)>>)
OptM(o) == Msg("options", NZ("name", o[1], "") \o [j \in DOMAIN o[2] |-> Sc("preference", o[2][j])])
FRefM(u, c) == Sc("function_reference", u \o "#" \o c)
ToRes == "AGGREGATION_PHASE_INITIAL_TO_RESULT"
FnM(x, u, c, t, rs, so, ps) ==
    LET as == [j \in DOMAIN rs |-> ArgM(rs[j])] os == [j \in DOMAIN x.opts |-> OptM(x.opts[j])] ty == <<Msg("output_type", <<t>>)>>
        ss == [j \in DOMAIN so |-> Msg("sorts", <<As("expr", so[j].e), Sc("direction", x.sorts[j][2])>>)]
        ph == NZ("phase", x.ph, Phases[1]) inv == NZ("invocation", x.inv, Invocations[1]) IN
    CASE x.kind = "scalar" -> Msg("scalar_function", <<FRefM(u, c)>> \o ty \o as \o os)
      [] x.kind = "aggregate" -> Msg("aggregate_function", <<FRefM(u, c)>> \o ss \o ph \o ty \o inv \o as \o os)
      [] x.kind = "window" -> Msg("window_function", <<FRefM(u, c)>> \o [j \in DOMAIN ps |-> As("partitions", ps[j].e)] \o ss
            \o (IF x.hi.k = "nil" THEN <<>> ELSE <<As("upper_bound", x.hi)>>) \o (IF x.lo.k = "nil" THEN <<>> ELSE <<As("lower_bound", x.lo)>>)
            \o ph \o ty \o as \o inv \o os \o NZ("bounds_type", x.bt, BoundsTypes[1]))
Loosen(t) == WithNull(NormT(t), "0")
RECURSIVE Mk(_, _, _, _)
MkAll(b, js, ctx, sch) == [i \in DOMAIN js |-> IF js[i] = 0 THEN MBad ELSE Mk(b, js[i], ctx, sch)]
Mk(b, j, ctx, sch) ==
    LET x == b[j] IN
    CASE x.k = "lit" -> MGood(E(x.v), TypeOfLit(x.v))
      [] x.k = "enum" -> [MGood(Sc("enum", x.val), NoT) EXCEPT !.t = Nd("enum", <<>>, <<>>)]
      [] x.k = "ref" -> LET t == IF x.p = <<>> THEN NoT ELSE ResT(sch, x.p) IN IF t = NoT THEN MBad ELSE MGood(RefE(x.p, RootR), t)
      [] x.k = "eref" ->
            LET r == TLCEval(Mk(b, x.of, ctx, sch)) IN
            IF r.st # "ok" THEN r ELSE LET t == IF x.p = <<>> THEN NoT ELSE ResT(r.t, x.p) IN IF t = NoT THEN MBad ELSE MGood(RefE(x.p, <<As("expression", r.e)>>), t)
      [] x.k = "pref" ->
            IF x.s >= Len(ctx) THEN MBad ELSE
            LET ps == ctx[Len(ctx) - x.s] t == ResT(Struct0(ps), x.p) IN
            IF t = NoT THEN MBad ELSE MGood(RefE(x.p, <<Msg("lambda_parameter_reference", NZ("steps_out", ToString(x.s), "0"))>>), t)
      [] x.k = "lam" /\ (\E i \in DOMAIN x.ts : IsNil(x.ts[i])) -> MBad
      [] x.k = "lam" ->
            LET r == TLCEval(Mk(b, x.of, Append(ctx, x.ts), sch)) IN
            IF r.st # "ok" THEN r ELSE MGood(E(Msg("lambda", <<StructMsg("parameters", x.ts, "NULLABILITY_REQUIRED"), As("body", r.e)>>)), Nd("func", <<"2", "0">>, x.ts \o <<r.t>>))
      [] x.k = "cast" -> LET r == TLCEval(Mk(b, x.of, ctx, sch)) IN IF r.st # "ok" THEN r ELSE MGood(E(Msg("cast", <<Msg("type", <<x.t>>), As("input", r.e)>> \o NZ("failure_behavior", x.fb, Fails[1]))), x.t)
      [] x.k = "param" -> IF IsNil(x.t) THEN MBad ELSE MGood(E(Msg("dynamic_parameter", <<Msg("type", <<x.t>>)>> \o NZ("parameter_reference", ToString(x.s), "0"))), x.t)
      [] x.k = "list" -> LET rs == TLCEval(MkAll(b, x.of, ctx, sch)) IN
            IF ~AllOk(rs) THEN Blame(rs) ELSE IF rs = <<>> \/ \E i \in DOMAIN rs : rs[i].t # rs[1].t THEN MOpen
            ELSE MGood(E(Msg("nested", (IF x.nul THEN <<Sc("nullable", "true")>> ELSE <<>>) \o <<Msg("list", [i \in DOMAIN rs |-> As("values", rs[i].e)])>>)), Nd("list", <<IF x.nul THEN "1" ELSE "2", "0">>, <<rs[1].t>>))
      [] x.k = "if" ->
            LET cs == TLCEval(MkAll(b, [i \in DOMAIN x.ifs |-> x.ifs[i][1]], ctx, sch)) ts == TLCEval(MkAll(b, [i \in DOMAIN x.ifs |-> x.ifs[i][2]], ctx, sch))
                el == TLCEval(MkAll(b, <<x.els>>, ctx, sch)) all == cs \o ts \o el IN
            IF ~AllOk(all) THEN Blame(all)
            ELSE IF \E i \in DOMAIN ts : ts[i].t # el[1].t THEN MBad
            ELSE IF \E i \in DOMAIN cs : cs[i].t.k # "bool" THEN MOpen      \* whether a condition has to be boolean is not stated
            ELSE MGood(E(Msg("if_then", [i \in DOMAIN cs |-> Msg("ifs", <<As("if", cs[i].e), As("then", ts[i].e)>>)] \o <<As("else", el[1].e)>>)), el[1].t)
      [] x.k = "sw" ->
            LET m == TLCEval(MkAll(b, <<x.match>>, ctx, sch)) ls == TLCEval(MkAll(b, [i \in DOMAIN x.cases |-> x.cases[i][1]], ctx, sch))
                ts == TLCEval(MkAll(b, [i \in DOMAIN x.cases |-> x.cases[i][2]], ctx, sch)) el == TLCEval(IF x.els = 0 THEN <<>> ELSE MkAll(b, <<x.els>>, ctx, sch))
                all == m \o ls \o ts \o el rs == ts \o el IN
            IF x.cases = <<>> THEN MBad
            ELSE IF ~AllOk(all) THEN Blame(all)
            ELSE IF \E i \in DOMAIN ls : Loosen(ls[i].t) # Loosen(m[1].t) THEN MBad
            ELSE IF \E i \in DOMAIN rs : Loosen(rs[i].t) # Loosen(rs[1].t) THEN MBad
            ELSE MGood(E(Msg("switch_expression", [i \in DOMAIN ls |-> Msg("ifs", <<As("if", Rex(ls[i].e)), As("then", ts[i].e)>>)]
                        \o (IF el = <<>> THEN <<>> ELSE <<As("else", el[1].e)>>) \o <<As("match", m[1].e)>>)),
                       WithNull(rs[1].t, IF el = <<>> \/ \E i \in DOMAIN rs : Nul(rs[i].t) = "1" THEN "1" ELSE "2"))
      [] x.k \in {"fn", "cust"} ->
            LET rs == TLCEval(MkAll(b, x.args, ctx, sch)) so == TLCEval(IF x.kind = "scalar" THEN <<>> ELSE MkAll(b, [i \in DOMAIN x.sorts |-> x.sorts[i][1]], <<>>, sch))
                ps == TLCEval(IF x.kind = "window" THEN MkAll(b, x.parts, ctx, sch) ELSE <<>>) all == rs \o so \o ps IN
            IF ~AllOk(all) THEN Blame(all)
            ELSE IF x.k = "cust" THEN (IF IsNil(x.t) THEN MBad ELSE [MGood(E(FnM(x, x.u, x.name, x.t, rs, so, ps)), x.t) EXCEPT !.f = x.name])
            ELSE LET ts == TLCEval([i \in DOMAIN rs |-> rs[i].t]) IN
                 IF \E i \in DOMAIN ts : ~KnownUdts(ts[i]) THEN MOpen
                 ELSE LET ds == TLCEval(Resolved(x.kind, x.u, x.name, x.full, ts)) IN
                 IF ds = <<>> THEN MBad
                 ELSE LET d == ds[1] r == TLCEval(Typed(d, ts)) IN
                 IF r.st = "bad" THEN MBad
                 ELSE IF x.kind = "window" /\ d.dec = "NONE" /\ x.ph # ToRes THEN MBad
                 ELSE IF x.kind = "window" /\ x.bt = "BOUNDS_TYPE_RANGE" /\ Len(so) # 1 THEN MBad
                 ELSE IF r.st = "open" THEN MOpen
                 ELSE [MGood(E(FnM(x, x.u, d.comp, r.t, rs, so, ps)), r.t) EXCEPT !.f = d.comp]
      [] OTHER -> MBad       \* a builder that fails
(* setters: a step replaces field f of part i *)
Put(b, s) == [b EXCEPT ![s.i] = [@ EXCEPT ![s.f] = s.v]]
=============================================================================
