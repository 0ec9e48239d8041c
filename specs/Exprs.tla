-------------------------------- MODULE Exprs --------------------------------
(* Expressions. An expression is the tree of its message: a node (named by the field it stands in) with one child, the
   alternative taken. NormE is the normal form two messages for the same expression share, TypeOfE the type the expression
   has under a base schema, ChildrenE/MapCh its direct sub-expressions and their replacement. *)
EXTENDS Literals

E(rex) == Msg("e", <<rex>>)
As(k, e) == Rename(e, k)
Rex(e) == e.c[1]
UnkT == Nd("unk", <<>>, <<>>)
RECURSIVE Known(_)
Known(t) == t.k # "unk" /\ \A j \in DOMAIN t.c : Known(t.c[j])
Bool(n) == T0("bool", n)
TypeFields == {"output_type", "type", "types"}

(* ---- normal form ---- *)
RECURSIVE NormG(_)
NormG(n) ==
    IF n.c = <<>> THEN n
    ELSE IF n.k \in TypeFields THEN [n EXCEPT !.c = <<NormT(n.c[1])>>]
    ELSE IF n.k = "literal" THEN NormLit(n)
    ELSE IF n.k = "switch_expression" THEN [n EXCEPT !.c = [j \in DOMAIN n.c |->
            IF n.c[j].k = "ifs" THEN [n.c[j] EXCEPT !.c = [i \in DOMAIN n.c[j].c |-> IF n.c[j].c[i].k = "if" THEN NormLit(n.c[j].c[i]) ELSE NormG(n.c[j].c[i])]]
            ELSE NormG(n.c[j])]]
    \* a reference that names no root is rooted at the input
    ELSE IF n.k = "selection" /\ (Has(n, "direct_reference") \/ Has(n, "masked_reference")) /\ ~Has(n, "root_reference") /\ ~Has(n, "expression") /\ ~Has(n, "outer_reference") /\ ~Has(n, "lambda_parameter_reference")
      THEN [n EXCEPT !.c = [j \in DOMAIN n.c |-> NormG(n.c[j])] \o <<Msg("root_reference", <<>>)>>]
    ELSE IF n.k = "map_key" THEN [n EXCEPT !.c = [j \in DOMAIN n.c |-> IF n.c[j].k = "map_key" THEN NormLit(n.c[j]) ELSE NormG(n.c[j])]]
    ELSE [n EXCEPT !.c = [j \in DOMAIN n.c |-> NormG(n.c[j])]]
NormE(e) == As("e", NormG(e))

(* ---- direct sub-expressions: a field reference has none (the published example of Visit does not reach the expression
   a reference is rooted at) ---- *)
MapField(n, ks, f(_)) == [n EXCEPT !.c = [j \in DOMAIN n.c |-> IF n.c[j].k \in ks THEN As(n.c[j].k, f(As("e", n.c[j]))) ELSE n.c[j]]]
MapArgs(n, f(_)) == [n EXCEPT !.c = [j \in DOMAIN n.c |->
    IF n.c[j].k = "arguments" /\ n.c[j].c # <<>> /\ n.c[j].c[1].k = "value" THEN MapField(n.c[j], {"value"}, f)
    ELSE IF n.c[j].k = "sorts" THEN MapField(n.c[j], {"expr"}, f) ELSE n.c[j]]]
MapIn(n, k, ks, f(_)) == [n EXCEPT !.c = [j \in DOMAIN n.c |-> IF n.c[j].k = k THEN MapField(n.c[j], ks, f) ELSE n.c[j]]]
(* a switch case's literal is a sub-expression too, written as a bare literal message *)
LitIf(n, f(_)) == [n EXCEPT !.c = [j \in DOMAIN n.c |-> IF n.c[j].k = "if" THEN As("if", Rex(f(E(As("literal", n.c[j]))))) ELSE n.c[j]]]
MapRex(x, f(_)) ==
    CASE x.k = "scalar_function" -> MapArgs(x, f)
      [] x.k = "window_function" -> MapField(MapArgs(x, f), {"partitions"}, f)
      [] x.k = "if_then" -> MapField(MapIn(x, "ifs", {"if", "then"}, f), {"else"}, f)
      [] x.k = "switch_expression" -> MapField([x EXCEPT !.c = [j \in DOMAIN x.c |-> IF x.c[j].k = "ifs" THEN MapField(LitIf(x.c[j], f), {"then"}, f) ELSE x.c[j]]], {"else", "match"}, f)
      [] x.k = "singular_or_list" -> MapField(x, {"value", "options"}, f)
      [] x.k = "multi_or_list" -> MapField(MapIn(x, "options", {"fields"}, f), {"value"}, f)
      [] x.k = "cast" -> MapField(x, {"input"}, f)
      [] x.k = "nested" -> [x EXCEPT !.c = [j \in DOMAIN x.c |-> IF x.c[j].k = "map" THEN MapIn(x.c[j], "key_values", {"key", "value"}, f)
                                                 ELSE IF x.c[j].k \in {"struct", "list"} THEN MapField(x.c[j], {"fields", "values"}, f) ELSE x.c[j]]]
      [] x.k = "lambda" -> MapField(x, {"body"}, f)
      [] x.k = "subquery" -> MapIn(MapIn(x, "in_predicate", {"needles"}, f), "set_comparison", {"left"}, f)
      [] OTHER -> x
MapCh(e, f(_)) == [e EXCEPT !.c[1] = MapRex(e.c[1], f)]

Args(n) == Flat([j \in DOMAIN n.c |-> IF n.c[j].k = "arguments" /\ n.c[j].c # <<>> /\ n.c[j].c[1].k = "value" THEN <<n.c[j].c[1]>> ELSE <<>>])
Sub(n, ks) == SelectSeq(n.c, LAMBDA x : x.k \in ks)
In2(n, k, ks) == Flat([j \in DOMAIN n.c |-> IF n.c[j].k = k THEN Sub(n.c[j], ks) ELSE <<>>])
Lits(s) == [j \in DOMAIN s |-> E(As("literal", s[j]))]
ChRex(x) ==
    CASE x.k = "scalar_function" -> Args(x)
      [] x.k = "window_function" -> Args(x) \o Sub(x, {"partitions"}) \o In2(x, "sorts", {"expr"})
      [] x.k = "if_then" -> In2(x, "ifs", {"if", "then"}) \o Sub(x, {"else"})
      [] x.k = "switch_expression" -> Lits(In2(x, "ifs", {"if"})) \o In2(x, "ifs", {"then"}) \o Sub(x, {"else", "match"})
      [] x.k = "singular_or_list" -> Sub(x, {"value", "options"})
      [] x.k = "multi_or_list" -> Sub(x, {"value"}) \o In2(x, "options", {"fields"})
      [] x.k = "cast" -> Sub(x, {"input"})
      [] x.k = "nested" -> In2(x, "struct", {"fields"}) \o In2(x, "list", {"values"}) \o
            Flat([j \in DOMAIN x.c |-> IF x.c[j].k = "map" THEN In2(x.c[j], "key_values", {"key", "value"}) ELSE <<>>])
      [] x.k = "lambda" -> Sub(x, {"body"})
      [] x.k = "subquery" -> In2(x, "in_predicate", {"needles"}) \o In2(x, "set_comparison", {"left"})
      [] OTHER -> <<>>
ChildrenE(e) == LET s == ChRex(Rex(e)) IN [j \in DOMAIN s |-> As("e", s[j])]
RECURSIVE Descend(_)
Descend(e) == LET s == ChildrenE(e) IN <<e>> \o Flat([j \in DOMAIN s |-> Descend(s[j])])

(* Replacement of sub-expressions: subst is a sequence of [f |-> from, t |-> to]. *)
Repl(e, subst) == LET h == SelectSeq(subst, LAMBDA s : NormE(s.f) = NormE(e)) IN IF h = <<>> THEN e ELSE h[1].t
Hit(e, subst) == \E j \in DOMAIN subst : NormE(subst[j].f) = NormE(e)
RECURSIVE Post(_, _)
Post(e, s) == Repl(MapCh(e, LAMBDA x : Post(x, s)), s)
RECURSIVE Pre(_, _)
Pre(e, s) == IF Hit(e, s) THEN Repl(e, s) ELSE MapCh(e, LAMBDA x : Pre(x, s))
One(e, s) == MapCh(e, LAMBDA x : Repl(x, s))

(* ---- types ---- *)
SegOf(n) == n.c[1]          \* a ReferenceSegment's alternative
RECURSIVE NavT(_, _)
NavT(t, seg) ==     \* seg: struct_field | list_element | map_key node
    LET next(u) == IF Has(seg, "child") THEN NavT(u, SegOf(Kid(seg, "child"))) ELSE u IN
    CASE t.k = "unk" -> UnkT
      [] seg.k = "struct_field" -> LET i == atoi(Attr(seg, "field", "0")) IN IF t.k = "struct" /\ i >= 0 /\ i < Len(t.c) THEN next(t.c[i + 1]) ELSE UnkT
      [] seg.k = "list_element" -> IF t.k = "list" THEN next(t.c[1]) ELSE UnkT
      [] seg.k = "map_key" -> IF t.k = "map" THEN next(t.c[2]) ELSE UnkT
Struct0(ts) == Nd("struct", <<"2", "0">>, ts)
NStruct(s) == Nd("struct", <<"2", "0">>, LET x == Kids(s, "types") IN [j \in DOMAIN x |-> NormT(x[j].c[1])])   \* of a Type.Struct message
RelCols(r) == NStruct(Kid(Kid(Kid(r, "read"), "base_schema"), "struct")).c      \* relations here are plain reads
RECURSIVE TypeOfE(_, _)
AnyNull(ts) == \E j \in DOMAIN ts : ts[j].k # "unk" /\ Nul(ts[j]) = "1"
TypeOfE(e, sch) ==
    LET x == Rex(e) IN
    CASE x.k = "literal" -> TypeOfLit(x)
      [] x.k = "selection" -> IF ~Has(x, "direct_reference") THEN UnkT
            ELSE IF Has(x, "root_reference") THEN NavT(sch, SegOf(Kid(x, "direct_reference")))
            ELSE IF Has(x, "expression") THEN NavT(TypeOfE(Kid(x, "expression"), sch), SegOf(Kid(x, "direct_reference")))
            ELSE UnkT
      [] x.k \in {"scalar_function", "window_function"} -> NormT(Kid(x, "output_type").c[1])
      [] x.k = "if_then" -> TypeOfE(Kid(x, "else"), sch)
      [] x.k = "switch_expression" ->
            LET th == In2(x, "ifs", {"then"})
                ts == TLCEval([j \in DOMAIN th |-> TypeOfE(th[j], sch)] \o (IF Has(x, "else") THEN <<TypeOfE(Kid(x, "else"), sch)>> ELSE <<>>)) IN
            IF \E j \in DOMAIN ts : ~Known(ts[j]) THEN UnkT
            ELSE WithNull(ts[1], IF ~Has(x, "else") \/ AnyNull(ts) THEN "1" ELSE Nul(ts[Len(ts)]))
      [] x.k \in {"singular_or_list", "multi_or_list"} -> Bool("2")
      [] x.k = "cast" -> NormT(Kid(x, "type").c[1])
      [] x.k = "dynamic_parameter" -> NormT(Kid(x, "type").c[1])
      [] x.k = "nested" ->
            LET pp == <<IF Has(x, "nullable") THEN "1" ELSE "2", Attr(x, "type_variation_reference", "0")>> IN
            (CASE Has(x, "struct") -> LET f == In2(x, "struct", {"fields"}) IN Nd("struct", pp, [j \in DOMAIN f |-> TypeOfE(f[j], sch)])
              [] Has(x, "list") -> Nd("list", pp, <<TypeOfE(In2(x, "list", {"values"})[1], sch)>>)
              [] Has(x, "map") -> LET kv == Kids(Kid(x, "map"), "key_values")[1] IN Nd("map", pp, <<TypeOfE(Kid(kv, "key"), sch), TypeOfE(Kid(kv, "value"), sch)>>))
      [] x.k = "lambda" -> Nd("func", <<"2", "0">>, NStruct(Kid(x, "parameters")).c \o <<TypeOfE(Kid(x, "body"), sch)>>)
      [] x.k = "subquery" -> IF Has(x, "scalar") THEN RelCols(Kid(Kid(x, "scalar"), "input"))[1] ELSE Bool("2")
(* Nullability of or-lists and subquery predicates is not fixed. *)
OpenNull(e) == LET x == Rex(e) IN x.k \in {"singular_or_list", "multi_or_list"} \/ (x.k = "subquery" /\ ~Has(x, "scalar"))
OpenType(e, sch) == ~Known(TypeOfE(e, sch)) \/ \E j \in DOMAIN Descend(e) : OpenNull(Descend(e)[j])

(* Scalar: no window function anywhere below; a lambda is not a scalar value. *)
RECURSIVE IsScalarE(_)
IsScalarE(e) == Rex(e).k \notin {"window_function", "lambda"} /\ LET s == ChildrenE(e) \o (IF Rex(e).k = "selection" THEN Sub(Rex(e), {"expression"}) ELSE <<>>) IN \A j \in DOMAIN s : IsScalarE(s[j])
(* Relations have no equality of their own, so neither have subqueries (documented limitation). *)
RECURSIVE HasK(_, _)
HasK(x, k) == x.k = k \/ \E j \in DOMAIN x.c : HasK(x.c[j], k)
HasSub(e) == HasK(e, "subquery")
RECURSIVE HasNaN(_)
HasNaN(n) == (n.k \in {"fp32", "fp64"} /\ n.p # <<>> /\ n.p[1] = "NaN") \/ \E j \in DOMAIN n.c : HasNaN(n.c[j])

(* ---- function declarations the plans refer to: anchor, file, name, kind in the collection ("-" when unknown) ---- *)
FnDecls == <<
    [a |-> 0, u |-> "f", n |-> "sf:any", k |-> "s"], [a |-> 1, u |-> "f", n |-> "sg:i32_i32", k |-> "s"], [a |-> 2, u |-> "f", n |-> "wf:i32", k |-> "w"],
    [a |-> 7, u |-> "f", n |-> "ag:i32", k |-> "a"], [a |-> 8, u |-> "f", n |-> "nosuch:i32", k |-> "-"], [a |-> 9, u |-> "g", n |-> "foo", k |-> "-"],
    [a |-> 10, u |-> "g", n |-> "foo:dec_i32", k |-> "-"], [a |-> 11, u |-> "g", n |-> "bar:vchar_u!pt_list", k |-> "-"], [a |-> 12, u |-> "g", n |-> "odd:", k |-> "-"],
    [a |-> 65536, u |-> "g", n |-> "x:i32_bogus", k |-> "-"], [a |-> 13, u |-> "f", n |-> "w0:", k |-> "w"], [a |-> 14, u |-> "f", n |-> "both:i32", k |-> "saw"]>>
DeclOf(a) == LET j == CHOOSE j \in DOMAIN FnDecls : ToString(FnDecls[j].a) = a IN FnDecls[j]

(* ---- grammar ---- *)
PathStep(p, x) == [x EXCEPT !.p = <<p>> \o @]
RECURSIVE PathsOf(_, _)
PathsOf(t, d) ==
    IF d = 0 THEN <<>> ELSE
    CASE t.k = "struct" -> Flat([i \in DOMAIN t.c |-> <<[p |-> <<<<"f", i - 1>>>>, t |-> t.c[i]]>> \o
                              LET r == PathsOf(t.c[i], d - 1) IN [j \in DOMAIN r |-> PathStep(<<"f", i - 1>>, r[j])]])
      [] t.k = "list" -> <<[p |-> <<<<"l", 0>>>>, t |-> t.c[1]]>> \o LET r == PathsOf(t.c[1], d - 1) IN [j \in DOMAIN r |-> PathStep(<<"l", 0>>, r[j])]
      [] t.k = "map" -> <<[p |-> <<<<"m", 0>>>>, t |-> t.c[2]]>> \o LET r == PathsOf(t.c[2], d - 1) IN [j \in DOMAIN r |-> PathStep(<<"m", 0>>, r[j])]
      [] OTHER -> <<>>
RECURSIVE SegTree(_, _)
SegTree(t, p) ==    \* along path p from type t
    LET h == p[1] ch(u) == IF Len(p) = 1 THEN <<>> ELSE <<Msg("child", <<SegTree(u, Tail(p))>>)>> IN
    CASE h[1] = "f" -> Msg("struct_field", <<Sc("field", ToString(h[2]))>> \o ch(t.c[h[2] + 1]))
      [] h[1] = "l" -> Msg("list_element", <<Sc("offset", ToString(RE(-1..3)))>> \o ch(t.c[1]))
      [] h[1] = "m" -> Msg("map_key", <<As("map_key", GLitOf(t.c[1], 2))>> \o ch(t.c[2]))
RECURSIVE GSelect(_)
RECURSIVE GItem(_)
GSelect(d) == LET w == IF d = 0 THEN 1 ELSE RE(1..3) ch == OptF(d > 0 /\ Chance(1, 2), As("child", GSelect(Max2(d - 1, 0)))) IN Msg("select", <<
    CASE w = 1 -> LET m == RE(0..3) IN Msg("struct", TLCEval([j \in 1..m |-> GItem(d)]))
      [] w = 2 -> LET m == RE(1..2) IN Msg("list", TLCEval([j \in 1..m |-> Msg("selection", <<IF Chance(1, 2) THEN Msg("item", <<Sc("field", ToString(RE(0..5)))>>)
                        ELSE Msg("slice", <<Sc("start", ToString(RE(0..2))), Sc("end", ToString(RE(0..4)))>>)>>)]) \o ch)
      [] w = 3 -> Msg("map", <<IF Chance(1, 2) THEN Msg("key", <<Sc("map_key", Pick(<<"k", "", "~e9;">>))>>) ELSE Msg("expression", <<Sc("map_key_expression", Pick(<<"a*", "">>))>>)>> \o ch)>>)
GItem(d) == LET f == RE(0..4) IN Msg("struct_items", <<Sc("field", ToString(f))>> \o OptF(d > 0 /\ Chance(1, 2), As("child", GSelect(Max2(d - 1, 0)))))
GMask(x) == LET m == RE(0..3) IN Msg("masked_reference", <<Msg("select", TLCEval([j \in 1..m |-> GItem(2)]))>> \o OptF(Chance(1, 2), Sc("maintain_singular_struct", "true")))
Sel(ref, root) == Msg("selection", <<ref>> \o root)
RootR == <<Msg("root_reference", <<>>)>>
Steps(k) == LET s == RE(0..2) IN <<Msg(k, NZ("steps_out", ToString(s), "0"))>>
(* references whose type the reader does not know *)
GLoose(cx) == LET ps == PathsOf(cx, 3) ref == TLCEval(LET h == Pick(ps) IN Msg("direct_reference", <<SegTree(cx, h.p)>>)) w == RE(1..7) mk == TLCEval(GMask(0)) IN
    E(CASE w = 1 -> Sel(ref, Steps("outer_reference"))
        [] w = 2 -> Sel(ref, Steps("lambda_parameter_reference"))
        [] w = 3 -> Sel(ref, <<>>)
        [] w = 4 -> Sel(mk, Steps("outer_reference"))
        [] OTHER -> Sel(mk, RootR))
FRef(x) == Sc("function_reference", ToString(Pick(FnDecls).a))
GOpts(x) == LET m == Pick(<<0, 0, 1, 2>>) IN TLCEval([j \in 1..m |-> Msg("options", <<Sc("name", Pick(<<"overflow", "rounding", "">>))>> \o
    TLCEval([i \in 1..RE(0..2) |-> Sc("preference", Pick(<<"ERROR", "SILENT", "">>))]))])
Phases == <<"AGGREGATION_PHASE_UNSPECIFIED", "AGGREGATION_PHASE_INITIAL_TO_INTERMEDIATE", "AGGREGATION_PHASE_INTERMEDIATE_TO_INTERMEDIATE", "AGGREGATION_PHASE_INITIAL_TO_RESULT", "AGGREGATION_PHASE_INTERMEDIATE_TO_RESULT">>
Invocations == <<"AGGREGATION_INVOCATION_UNSPECIFIED", "AGGREGATION_INVOCATION_ALL", "AGGREGATION_INVOCATION_DISTINCT">>
Directions == <<"SORT_DIRECTION_UNSPECIFIED", "SORT_DIRECTION_ASC_NULLS_FIRST", "SORT_DIRECTION_ASC_NULLS_LAST", "SORT_DIRECTION_DESC_NULLS_FIRST", "SORT_DIRECTION_DESC_NULLS_LAST", "SORT_DIRECTION_CLUSTERED">>
BoundsTypes == <<"BOUNDS_TYPE_UNSPECIFIED", "BOUNDS_TYPE_ROWS", "BOUNDS_TYPE_RANGE">>
Fails == <<"FAILURE_BEHAVIOR_UNSPECIFIED", "FAILURE_BEHAVIOR_RETURN_NULL", "FAILURE_BEHAVIOR_THROW_EXCEPTION">>
GBound(k) == Msg(k, <<LET w == RE(1..4) v == Pick(<<"1", "0", "5", "-1", "9223372036854775807">>) IN
    CASE w = 1 -> Msg("preceding", NZ("offset", v, "0")) [] w = 2 -> Msg("following", NZ("offset", v, "0"))
      [] w = 3 -> Msg("current_row", <<>>) [] w = 4 -> Msg("unbounded", <<>>)>>)
PlainK == Simple \o Prec \o Fixed \o <<"decimal">>
GT1(d) == GLT(Pick(IF d <= 0 THEN PlainK ELSE LitKinds), d)
GSchema(x) == LET m == RE(1..4) IN Struct0(TLCEval([j \in 1..m |-> GLT(Pick(IF Chance(1, 2) THEN <<"struct", "list", "map">> ELSE LitKinds), RE(1..3))]))

RECURSIVE GE(_, _, _)
RECURSIVE GAny(_, _)
RECURSIVE GRead(_, _, _)
GSort(cx, d) == Msg("sorts", <<As("expr", GAny(cx, d)), IF Chance(5, 6) THEN Sc("direction", Pick(Directions)) ELSE Sc("comparison_function_reference", Pick(<<"0", "3">>))>>)
GLambda(cx, d) == LET m == RE(0..2) ps == TLCEval([j \in 1..m |-> GT1(1)]) b == TLCEval(IF ps # <<>> /\ Chance(1, 2)
                        THEN E(Sel(Msg("direct_reference", <<Msg("struct_field", <<Sc("field", ToString(RE(0..(Len(ps) - 1))))>>)>>), Steps("lambda_parameter_reference")))
                        ELSE GAny(cx, d - 1)) v == Pick(<<"0", "0", "2">>) IN
    E(Msg("lambda", <<Msg("parameters", [j \in DOMAIN ps |-> Msg("types", <<ps[j]>>)] \o NZ("type_variation_reference", v, "0") \o <<Sc("nullability", "NULLABILITY_REQUIRED")>>), As("body", b)>>))
GArgs(cx, d) == LET m == RE(0..3) IN TLCEval([j \in 1..m |-> Msg("arguments", <<LET w == RE(1..10) IN
    CASE w = 1 -> Sc("enum", Pick(<<"DAY", "", "x y">>)) [] w = 2 -> Msg("type", <<GT1(1)>>)
      [] w = 3 /\ d > 0 -> As("value", GLambda(cx, d)) [] OTHER -> As("value", GAny(cx, d - 1))>>)])
GAny(cx, d) == IF PathsOf(cx, 3) # <<>> /\ Chance(1, 10) THEN GLoose(cx) ELSE LET t == TLCEval(GT1(Min2(d, 2))) IN GE(t, cx, d)
Flip(t) == IF Chance(1, 3) THEN WithNull(t, Pick(<<"1", "2">>)) ELSE t
GE(t0, cx, d) ==
    LET t == t0
        here == SelectSeq(PathsOf(cx, 3), LAMBDA x : NormT(x.t) = NormT(t))
        w == TLCEval(IF here # <<>> /\ Chance(1, 2) THEN "field" ELSE
             IF d <= 0 THEN Pick(<<"lit", "lit", "param", "lit">>) ELSE
             Pick(<<"lit", "scalar", "scalar", "scalar", "window", "window", "if", "switch", "cast", "param", "nested", "nested", "or", "mor", "rootexpr", "sub", "sub">>)) IN
    CASE w = "field" -> LET h == Pick(here) IN E(Sel(Msg("direct_reference", <<SegTree(cx, h.p)>>), RootR))
      [] w = "param" -> E(Msg("dynamic_parameter", <<Msg("type", <<t>>), Sc("parameter_reference", Pick(<<"0", "1", "7", "4294967295">>))>>))
      [] w = "scalar" -> LET o == TLCEval(GOpts(0)) IN E(Msg("scalar_function", <<FRef(0), Msg("output_type", <<t>>)>> \o GArgs(cx, d) \o o))
      [] w = "window" -> LET ps == TLCEval([j \in 1..RE(0..2) |-> As("partitions", GAny(cx, d - 1))]) so == TLCEval([j \in 1..RE(0..2) |-> GSort(cx, d - 1)])
                             ub == TLCEval(OptF(Chance(2, 3), GBound("upper_bound"))) lb == TLCEval(OptF(Chance(2, 3), GBound("lower_bound"))) IN
            E(Msg("window_function", <<FRef(0)>> \o ps \o so \o ub \o lb \o <<Sc("phase", Pick(Phases)), Msg("output_type", <<t>>)>> \o GArgs(cx, d)
                \o <<Sc("invocation", Pick(Invocations))>> \o GOpts(0) \o <<Sc("bounds_type", Pick(BoundsTypes))>>))
      [] w = "if" -> E(Msg("if_then", TLCEval([j \in 1..RE(1..2) |-> Msg("ifs", <<As("if", GE(Bool(Pick(<<"1", "2">>)), cx, d - 1)), As("then", GE(t, cx, d - 1))>>)]) \o <<As("else", GE(t, cx, d - 1))>>))
      [] w = "switch" -> LET mt == TLCEval(GT1(0)) f(x) == IF Nul(t) = "1" THEN Flip(t) ELSE t
                             cs == TLCEval([j \in 1..RE(1..3) |-> Msg("ifs", <<As("if", GLitOf(mt, 1)), As("then", GE(f(0), cx, d - 1))>>)])
                             el == TLCEval(OptF(Nul(t) # "1" \/ Chance(2, 3), As("else", GE(t, cx, d - 1)))) IN
            E(Msg("switch_expression", cs \o el \o <<As("match", GE(mt, cx, d - 1))>>))
      [] w = "cast" -> E(Msg("cast", <<Msg("type", <<t>>), As("input", GAny(cx, d - 1)), Sc("failure_behavior", Pick(Fails))>>))
      [] w = "nested" /\ t.k \in {"struct", "list", "map"} ->
            LET tl == OptF(Nul(t) = "1", Sc("nullable", "true")) \o NZ("type_variation_reference", t.p[2], "0") IN
            E(Msg("nested", tl \o <<CASE t.k = "struct" -> Msg("struct", TLCEval([j \in DOMAIN t.c |-> As("fields", GE(t.c[j], cx, d - 1))]))
                [] t.k = "list" -> Msg("list", TLCEval([j \in 1..RE(1..3) |-> As("values", GE(t.c[1], cx, d - 1))]))
                [] t.k = "map" -> Msg("map", TLCEval([j \in 1..RE(1..2) |-> Msg("key_values", <<As("key", GE(t.c[1], cx, d - 1)), As("value", GE(t.c[2], cx, d - 1))>>)]))>>))
      [] w = "or" /\ t.k = "bool" -> LET u == TLCEval(GT1(1)) IN E(Msg("singular_or_list", <<As("value", GE(u, cx, d - 1))>> \o TLCEval([j \in 1..RE(0..3) |-> As("options", GE(u, cx, d - 1))])))
      [] w = "mor" /\ t.k = "bool" -> LET us == TLCEval([j \in 1..RE(1..2) |-> GT1(1)]) IN
            E(Msg("multi_or_list", TLCEval([j \in DOMAIN us |-> As("value", GE(us[j], cx, d - 1))]) \o
                TLCEval([i \in 1..RE(0..3) |-> Msg("options", TLCEval([j \in DOMAIN us |-> As("fields", GE(us[j], cx, d - 1))]))])))
      [] w = "rootexpr" -> LET inner == TLCEval(IF Chance(1, 2) THEN Nd("struct", <<"2", "0">>, <<GT1(0), t>>) ELSE IF Chance(1, 2) THEN Nd("list", <<"1", "0">>, <<t>>) ELSE Nd("map", <<"2", "0">>, <<GT1(0), t>>))
                               p == IF inner.k = "struct" THEN <<"f", 1>> ELSE IF inner.k = "list" THEN <<"l", 0>> ELSE <<"m", 0>> IN
            E(Sel(Msg("direct_reference", <<SegTree(inner, <<p>>)>>), <<As("expression", GE(inner, cx, d - 1))>>))
      [] w = "sub" /\ t.k # "bool" -> E(Msg("subquery", <<Msg("scalar", <<As("input", GRead(<<t>>, cx, d - 1))>>)>>))
      [] w = "sub" -> LET z == RE(1..3) us == TLCEval([j \in 1..RE(1..2) |-> GT1(1)]) IN E(Msg("subquery", <<
            CASE z = 1 -> Msg("in_predicate", TLCEval([j \in DOMAIN us |-> As("needles", GE(us[j], cx, d - 1))]) \o <<As("haystack", GRead(us, cx, d - 1))>>)
              [] z = 2 -> Msg("set_predicate", <<Sc("predicate_op", Pick(<<"PREDICATE_OP_EXISTS", "PREDICATE_OP_UNIQUE">>)), As("tuples", GRead(us, cx, d - 1))>>)
              [] z = 3 -> Msg("set_comparison", <<Sc("reduction_op", Pick(<<"REDUCTION_OP_ANY", "REDUCTION_OP_ALL">>)),
                    Sc("comparison_op", Pick(<<"COMPARISON_OP_EQ", "COMPARISON_OP_NE", "COMPARISON_OP_LT", "COMPARISON_OP_GE">>)), As("left", GE(us[1], cx, d - 1)), As("right", GRead(<<us[1]>>, cx, d - 1))>>)>>))
      [] OTHER -> E(GLitOf(t, 2))
NamesOf(n) == TLCEval([j \in 1..n |-> Sc("names", "c" \o ToString(j))])
RECURSIVE NFields(_)
NFields(t) == CASE t.k = "struct" -> FoldLeft(LAMBDA a, x : a + 1 + NFields(x), 0, t.c)
                [] t.k \in {"list", "map"} -> FoldLeft(LAMBDA a, x : a + NFields(x), 0, t.c)
                [] OTHER -> 0
NStructMsg(ts) == Msg("base_schema", NamesOf(NFields(Struct0(ts))) \o <<Msg("struct", [j \in DOMAIN ts |-> Msg("types", <<ts[j]>>)] \o <<Sc("nullability", "NULLABILITY_REQUIRED")>>)>>)
GRead(ts, cx, d) == LET own == Struct0(ts) fl == TLCEval(OptF(Chance(1, 2), As("filter", GE(Bool("2"), own, d - 1)))) IN
    Msg("rel", <<Msg("read", <<Msg("common", <<Msg("direct", <<>>)>>), NStructMsg(ts)>> \o fl \o <<Msg("named_table", <<Sc("names", Pick(<<"t1", "t2">>))>>)>>)>>)

GAgg(cx, d) == LET so == TLCEval([j \in 1..RE(0..2) |-> GSort(cx, d - 1)]) t == TLCEval(GT1(1)) IN
    Msg("e", <<FRef(0)>> \o so \o <<Sc("phase", Pick(Phases)), Msg("output_type", <<t>>), Sc("invocation", Pick(Invocations))>> \o GArgs(cx, d) \o GOpts(0))
NormAgg(a) == As("e", NormG(a))
Ds == <<1, 2, 2, 3>>
GTop(cx) == IF Chance(1, 8) THEN GLambda(cx, 2) ELSE LET k == Pick(<<"bool", "bool", "struct", "list", "map", "i32", "string", "decimal">>) t == TLCEval(GLT(k, 2)) d == Pick(Ds) IN GE(t, cx, d)

(* Extended expressions are read without a reader for subqueries. *)
RECURSIVE NoSub(_, _)
NoSub(cx, agg) == LET e == TLCEval(IF agg THEN GAgg(cx, 2) ELSE GTop(cx)) IN IF HasK(e, "subquery") THEN NoSub(cx, agg) ELSE e
(* ---- what the accessors say: the message, where an absent filter after a join or on a measure is the literal true ---- *)
TrueE == Msg("literal", <<Sc("boolean", "true")>>)
\* the filter, moved to the end; filled in when fill
LastF(n, k, fill) == LET f == SelectSeq(n.c, LAMBDA y : y.k = k) IN
    [n EXCEPT !.c = SelectSeq(@, LAMBDA y : y.k # k) \o (IF f = <<>> /\ fill THEN <<Msg(k, <<TrueE>>)>> ELSE f)]
RECURSIVE DefF(_, _)
DefF(n, fill) == LET m == CASE n.k \in {"join", "hash_join", "merge_join"} -> LastF(n, "post_join_filter", fill) [] n.k = "measures" -> LastF(n, "filter", fill) [] OTHER -> n IN
    [m EXCEPT !.c = [j \in DOMAIN m.c |-> DefF(m.c[j], fill)]]
Said(n) == DefF(n, FALSE)
DefR(n) == DefF(n, TRUE)
=============================================================================
