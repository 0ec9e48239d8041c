--------------------------------- MODULE Refs ---------------------------------
(* References. A path of segments denotes a component of a type or nothing (ResT). Builders of expressions form a graph that
   is built in the scope of the enclosing lambdas (Bld): a lambda parameter reference denotes a parameter of the lambda that
   many scopes out, and building leaves the scope as it was. *)
EXTENDS Exprs

NoT == Nd("none", <<>>, <<>>)
RECURSIVE ResT(_, _)
ResT(t, p) ==
    IF p = <<>> \/ t.k = "none" THEN t ELSE
    LET h == p[1] IN
    CASE h.k = "f" -> IF t.k = "struct" /\ h.i >= 0 /\ h.i < Len(t.c) THEN ResT(t.c[h.i + 1], Tail(p)) ELSE NoT
      [] h.k = "l" -> IF t.k = "list" THEN ResT(t.c[1], Tail(p)) ELSE NoT
      [] h.k = "m" -> IF t.k = "map" /\ NormT(TypeOfLit(As("literal", h.v))) = NormT(t.c[1]) THEN ResT(t.c[2], Tail(p)) ELSE NoT
RECURSIVE SegMsg(_)
SegMsg(p) == LET h == p[1] ch == IF Len(p) = 1 THEN <<>> ELSE <<Msg("child", <<SegMsg(Tail(p))>>)>> IN
    CASE h.k = "f" -> Msg("struct_field", NZ("field", ToString(h.i), "0") \o ch)
      [] h.k = "l" -> Msg("list_element", NZ("offset", ToString(h.i), "0") \o ch)
      [] h.k = "m" -> Msg("map_key", <<As("map_key", h.v)>> \o ch)
Direct(p) == Msg("direct_reference", IF p = <<>> THEN <<>> ELSE <<SegMsg(p)>>)
RefE(p, root) == E(Msg("selection", <<Direct(p)>> \o root))

(* ---- building: the result is [ok, e, t] ---- *)
Bad == [ok |-> FALSE, e |-> NilNode, t |-> NoT]
Good(e, t) == [ok |-> TRUE, e |-> e, t |-> NormT(t)]
FnName(f) == CASE f = "add" -> "add:i32_i32" [] f = "not" -> "not:bool" [] f = "transform" -> "transform:list_func" [] OTHER -> f
FnT(f, ts) ==
    LET any == IF \E j \in DOMAIN ts : Nul(ts[j]) = "1" THEN "1" ELSE "2" IN
    CASE f = "add" -> IF Len(ts) = 2 /\ ts[1].k = "i32" /\ ts[2].k = "i32" THEN T0("i32", any) ELSE NoT
      [] f = "not" -> IF Len(ts) = 1 /\ ts[1].k = "bool" THEN T0("bool", any) ELSE NoT
      [] f = "transform" -> IF Len(ts) = 2 /\ ts[1].k = "list" /\ ts[2].k = "func" /\ Len(ts[2].c) = 2 /\ ts[2].c[1] = ts[1].c[1]
                            THEN Nd("list", <<Nul(ts[1]), "0">>, <<ts[2].c[2]>>) ELSE NoT
      [] OTHER -> NoT
StructMsg(k, ts, nul) == Msg(k, [j \in DOMAIN ts |-> Msg("types", <<ts[j]>>)] \o (IF nul = "0" THEN <<>> ELSE <<Sc("nullability", nul)>>))
RECURSIVE Bld(_, _, _, _)
Bld(b, j, ctx, sch) ==
    LET x == b[j] IN
    CASE x.k = "lit" -> Good(E(x.v), TypeOfLit(x.v))
      [] x.k = "ref" -> LET t == IF x.p = <<>> THEN NoT ELSE ResT(sch, x.p) IN IF t = NoT THEN Bad ELSE Good(RefE(x.p, RootR), t)
      [] x.k = "pref" ->
            IF x.s >= Len(ctx) THEN Bad ELSE
            LET ps == ctx[Len(ctx) - x.s] t == ResT(Struct0(ps), x.p) IN
            IF t = NoT THEN Bad ELSE Good(RefE(x.p, <<Msg("lambda_parameter_reference", NZ("steps_out", ToString(x.s), "0"))>>), t)
      [] x.k = "lam" ->
            IF x.nul # "2" THEN Bad ELSE
            LET r == TLCEval(Bld(b, x.of, Append(ctx, x.ts), sch)) IN
            IF ~r.ok THEN Bad ELSE Good(E(Msg("lambda", <<StructMsg("parameters", x.ts, "NULLABILITY_REQUIRED"), As("body", r.e)>>)), Nd("func", <<"2", "0">>, x.ts \o <<r.t>>))
      [] x.k = "cast" -> LET r == TLCEval(Bld(b, x.of, ctx, sch)) IN IF ~r.ok THEN Bad ELSE Good(E(Msg("cast", <<Msg("type", <<x.t>>), As("input", r.e)>>)), x.t)
      [] x.k = "param" -> Good(E(Msg("dynamic_parameter", <<Msg("type", <<x.t>>)>> \o NZ("parameter_reference", ToString(x.s), "0"))), x.t)
      [] x.k = "fn" ->
            LET rs == TLCEval([i \in DOMAIN x.args |-> Bld(b, x.args[i], ctx, sch)]) t == IF \A i \in DOMAIN rs : rs[i].ok THEN FnT(x.f, [i \in DOMAIN rs |-> rs[i].t]) ELSE NoT IN
            IF t = NoT THEN Bad
            ELSE Good(E(Msg("scalar_function", <<Sc("function_reference", FnName(x.f)), Msg("output_type", <<t>>)>> \o [i \in DOMAIN rs |-> Msg("arguments", <<As("value", rs[i].e)>>)])), t)
      [] OTHER -> Bad       \* a builder that fails
RECURSIVE Reaches(_, _, _)
Reaches(b, j, k) == b[j].k = k \/ (b[j].k \in {"lam", "cast"} /\ Reaches(b, b[j].of, k)) \/ (b[j].k = "fn" /\ \E i \in DOMAIN b[j].args : Reaches(b, b[j].args[i], k))

(* ---- grammar ---- *)
Seg(k, i, v) == [k |-> k, i |-> i, v |-> v]
RECURSIVE GPath(_, _)
GPath(t, d) ==      \* a path that denotes something below t
    IF d = 0 \/ t.k \notin {"struct", "list", "map"} \/ t.c = <<>> THEN <<>> ELSE
    CASE t.k = "struct" -> LET i == RE(0..(Len(t.c) - 1)) IN <<Seg("f", i, NilNode)>> \o GPath(t.c[i + 1], RE(0..(d - 1)))
      [] t.k = "list" -> <<Seg("l", Pick(<<0, 1, -1, 2147483647>>), NilNode)>> \o GPath(t.c[1], RE(0..(d - 1)))
      [] t.k = "map" -> LET v == TLCEval(GLitOf(t.c[1], 1)) IN <<Seg("m", 0, v)>> \o GPath(t.c[2], RE(0..(d - 1)))
RECURSIVE TyAt(_, _, _)
TyAt(t, p, k) == IF k = 0 THEN t ELSE TyAt(ResT(t, <<p[1]>>), Tail(p), k - 1)
GSeg(x) == LET w == RE(1..3) IN IF w = 1 THEN Seg("f", Pick(<<0, 1, 2, -1>>), NilNode) ELSE IF w = 2 THEN Seg("l", 0, NilNode) ELSE LET v == TLCEval(GLitOf(GLT(Pick(<<"i32", "string", "bool">>), 0), 1)) IN Seg("m", 0, v)
(* a path next to a meaningful one *)
MutPath(t, p) ==
    IF p = <<>> THEN <<GSeg(0)>> ELSE
    LET j == RE(1..Len(p)) w == RE(1..5) at == TyAt(t, p, j - 1) IN
    CASE w <= 2 /\ at.k = "struct" -> [p EXCEPT ![j] = Seg("f", Pick(<<Len(at.c), Len(at.c) + 1, -1, 2147483647, -2147483647>>), NilNode)]
      [] w = 3 -> Append(p, GSeg(0))
      [] w = 4 -> SubSeq(p, 1, j - 1) \o <<TLCEval(GSeg(0))>> \o SubSeq(p, j, Len(p))
      [] OTHER -> [p EXCEPT ![j] = GSeg(0)]
GColAny(x) == GLT(IF Chance(1, 2) THEN Pick(<<"struct", "list", "map">>) ELSE Pick(LitKinds), RE(0..3))
GSch(k) == TLCEval([j \in 1..k |-> GColAny(0)])
=============================================================================
