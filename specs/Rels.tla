-------------------------------- MODULE Rels --------------------------------
(* Relations and plans, as the trees of their messages: a node with one child, the alternative taken. NormR is the normal
   form two messages for the same relation share (deprecated encodings replaced), SchemaR the output columns a relation's
   semantics imply, InputsR/WithInputs its inputs, ExprsOf/MapExprs the expressions it carries. *)
EXTENDS Exprs

R(x) == Msg("rel", <<x>>)
Op(r) == r.c[1]
InputKs == {"input", "left", "right", "inputs"}
InputsR(r) == LET s == SelectSeq(Op(r).c, LAMBDA x : x.k \in InputKs) IN [j \in DOMAIN s |-> As("rel", s[j])]
IdxOf(x, j) == Cardinality({i \in 1..j : x.c[i].k \in InputKs})
WithInputs(r, ins) == LET x == Op(r) IN
    IF x.k \in {"set", "extension_multi"} THEN    \* any number of inputs, in place of the old ones
        [r EXCEPT !.c[1].c = Flat([j \in DOMAIN x.c |-> IF x.c[j].k # "inputs" THEN <<x.c[j]>> ELSE IF IdxOf(x, j) = 1 THEN [i \in DOMAIN ins |-> As("inputs", ins[i])] ELSE <<>>])]
    ELSE [r EXCEPT !.c[1].c = [j \in DOMAIN x.c |-> IF x.c[j].k \in InputKs THEN As(x.c[j].k, ins[IdxOf(x, j)]) ELSE x.c[j]]]
RECURSIVE PreR(_)
PreR(r) == LET s == InputsR(r) IN <<r>> \o Flat([j \in DOMAIN s |-> PreR(s[j])])

(* ---- emit ---- *)
EmitOf(x) == IF Has(x, "common") /\ Has(Kid(x, "common"), "emit") THEN Kid(Kid(x, "common"), "emit") ELSE NilNode
HasEmit(x) == ~IsNil(EmitOf(x))
MappingOf(x) == LET s == Kids(EmitOf(x), "output_mapping") IN [j \in DOMAIN s |-> atoi(s[j].p[1])]
MkEmit(m) == Msg("emit", [j \in DOMAIN m |-> Sc("output_mapping", ToString(m[j]))])
WithEmit(r, kind) ==    \* kind: <<>> for direct, <<m>> for a mapping
    LET x == Op(r) e == IF kind = <<>> THEN Msg("direct", <<>>) ELSE MkEmit(kind[1])
        c == Msg("common", <<e>> \o (IF Has(x, "common") THEN SelectSeq(Kid(x, "common").c, LAMBDA y : y.k \notin {"direct", "emit"}) ELSE <<>>)) IN
    [r EXCEPT !.c[1].c = <<c>> \o SelectSeq(x.c, LAMBDA y : y.k # "common")]

(* ---- output schema: a sequence of types ---- *)
Nullable(ts) == [j \in DOMAIN ts |-> WithNull(ts[j], "1")]
BS(x) == NStruct(Kid(Kid(x, "base_schema"), "struct")).c
JT(x) == Attr(x, "type", "JOIN_TYPE_UNSPECIFIED")
JoinCols(l, r, t) ==
    CASE t = "JOIN_TYPE_OUTER" -> Nullable(l) \o Nullable(r)
      [] t \in {"JOIN_TYPE_LEFT", "JOIN_TYPE_LEFT_SINGLE"} -> l \o Nullable(r)
      [] t \in {"JOIN_TYPE_RIGHT", "JOIN_TYPE_RIGHT_SINGLE"} -> Nullable(l) \o r
      [] t \in {"JOIN_TYPE_LEFT_SEMI", "JOIN_TYPE_LEFT_ANTI"} -> l
      [] t \in {"JOIN_TYPE_RIGHT_SEMI", "JOIN_TYPE_RIGHT_ANTI"} -> r
      [] t = "JOIN_TYPE_LEFT_MARK" -> l \o <<Bool("1")>>
      [] t = "JOIN_TYPE_RIGHT_MARK" -> r \o <<Bool("1")>>
      [] OTHER -> l \o r
Detail(x) == Attr(Kid(x, "detail"), "type_url", "")
TwoCols == <<T0("i32", "2"), T0("string", "1")>>     \* what the registered definition "vh/two" declares
RECURSIVE SchemaR(_)
RECURSIVE DirectR(_)
Dedup(s) == FoldLeft(LAMBDA a, y : IF \E j \in DOMAIN a : a[j] = y THEN a ELSE Append(a, y), <<>>, s)
PosIn(s, y) == CHOOSE j \in DOMAIN s : s[j] = y
Refs(g) == LET s == Kids(g, "expression_references") IN [j \in DOMAIN s |-> atoi(s[j].p[1])]
(* the distinct grouping expressions of an aggregate and, per grouping set, the positions of those it uses *)
GroupsOf(x) ==
    LET es == Kids(x, "grouping_expressions") gs == Kids(x, "groupings") IN
    IF es # <<>> THEN [es |-> es, sets |-> [j \in DOMAIN gs |-> Refs(gs[j])]]
    ELSE LET inl == TLCEval([j \in DOMAIN gs |-> LET k == Kids(gs[j], "grouping_expressions") IN [i \in DOMAIN k |-> NormG(k[i])]])
             top == TLCEval(Dedup(Flat(inl))) IN
         [es |-> top, sets |-> [j \in DOMAIN gs |-> [i \in DOMAIN inl[j] |-> PosIn(top, inl[j][i]) - 1]]]
DirectR(r) ==
    LET x == Op(r) in == TLCEval([j \in DOMAIN InputsR(r) |-> SchemaR(InputsR(r)[j])]) IN
    CASE x.k = "read" -> BS(x)
      [] x.k \in {"filter", "sort", "fetch", "set"} -> in[1]
      [] x.k = "project" -> in[1] \o LET es == Kids(x, "expressions") IN [j \in DOMAIN es |-> TypeOfE(As("e", es[j]), Struct0(in[1]))]
      [] x.k = "cross" -> in[1] \o in[2]
      [] x.k \in {"join", "hash_join", "merge_join"} -> JoinCols(in[1], in[2], JT(x))
      [] x.k = "aggregate" ->
            \* the grouping expressions in declaration order, nullable where some grouping set leaves them out, the measures,
            \* and the index of the grouping set if there are several
            LET g == GroupsOf(x) ms == Kids(x, "measures") many == Len(g.sets) > 1
                key(j) == LET t == TypeOfE(As("e", g.es[j]), Struct0(in[1])) IN
                          IF \A i \in DOMAIN g.sets : \E h \in DOMAIN g.sets[i] : g.sets[i][h] = j - 1 THEN t ELSE WithNull(t, "1") IN
            [j \in DOMAIN g.es |-> key(j)] \o [j \in DOMAIN ms |-> NormT(Kid(Kid(ms[j], "measure"), "output_type").c[1])]
                \o (IF many THEN <<T0("i32", "2")>> ELSE <<>>)
      [] x.k \in {"extension_single", "extension_multi", "extension_leaf"} ->
            (CASE Detail(x) \in {"vh/two", "vh/par"} -> TwoCols
               [] Detail(x) = "vh/cat" -> Flat(in)
               [] OTHER -> IF Len(in) = 1 THEN in[1] ELSE <<>>)
      [] x.k = "write" -> IF Attr(x, "output", "") = "OUTPUT_MODE_MODIFIED_RECORDS" THEN NStruct(Kid(Kid(x, "table_schema"), "struct")).c ELSE <<>>
SchemaR(r) == LET d == TLCEval(DirectR(r)) m == MappingOf(Op(r)) IN IF HasEmit(Op(r)) THEN [j \in DOMAIN m |-> d[m[j] + 1]] ELSE d
(* The schema of an undecoded extension and of a write that names no output mode is not known. *)
OwnSchemaKnown(x) == ~(x.k \in {"extension_single", "extension_multi", "extension_leaf"} /\ Detail(x) \notin {"vh/two", "vh/cat", "vh/par"})
                  /\ ~(x.k = "write" /\ ~Has(x, "output"))
                  \* every grouping expression has to occur in some grouping set
                  /\ (x.k = "aggregate" => LET g == GroupsOf(x) IN \A j \in DOMAIN g.es : \E i \in DOMAIN g.sets : \E h \in DOMAIN g.sets[i] : g.sets[i][h] = j - 1)
RECURSIVE SchemaKnown(_)
SchemaKnown(r) == OwnSchemaKnown(Op(r)) /\ \A j \in DOMAIN InputsR(r) : SchemaKnown(InputsR(r)[j])

(* ---- remapping ---- *)
RemapOk(r, m) == \A j \in DOMAIN m : m[j] >= 0 /\ m[j] < Len(SchemaR(r))
Remap(r, m) == WithEmit(r, <<IF HasEmit(Op(r)) THEN [j \in DOMAIN m |-> MappingOf(Op(r))[m[j] + 1]] ELSE m>>)
RECURSIVE NormEmits(_)
NormEmit(r) == IF HasEmit(Op(r)) /\ MappingOf(Op(r)) = [j \in 1..Len(DirectR(r)) |-> j - 1] THEN WithEmit(r, <<>>) ELSE r
(* Emitting every direct column in order says the same as not emitting. *)
NormEmits(r) == LET r2 == IF InputsR(r) = <<>> THEN r ELSE WithInputs(r, [j \in DOMAIN InputsR(r) |-> NormEmits(InputsR(r)[j])]) IN NormEmit(r2)

(* ---- normal form ---- *)
NormCommon(x) == LET c == IF Has(x, "common") THEN Kid(x, "common") ELSE Msg("common", <<>>) IN
    IF Has(c, "direct") \/ Has(c, "emit") THEN c ELSE [c EXCEPT !.c = <<Msg("direct", <<>>)>> \o @]
EqCmp == Msg("comparison", <<Sc("simple", "SIMPLE_COMPARISON_TYPE_EQ")>>)
NormKeys(x) == LET ks == Kids(x, "keys") l == Kids(x, "left_keys") r == Kids(x, "right_keys") IN
    IF ks # <<>> THEN ks ELSE [j \in DOMAIN l |-> Msg("keys", <<As("left", l[j]), As("right", r[j]), EqCmp>>)]
RefNode(n) == NormG(As("selection", n))     \* a bare field reference message
NormGroups(x) ==
    LET es == Kids(x, "grouping_expressions") gs == Kids(x, "groupings") IN
    IF es # <<>> THEN gs \o [j \in DOMAIN es |-> NormG(es[j])]
    ELSE LET g == GroupsOf(x) IN [j \in DOMAIN g.sets |-> Msg("groupings", [i \in DOMAIN g.sets[j] |-> Sc("expression_references", ToString(g.sets[j][i]))])] \o g.es
NormVT(v) == Msg("virtual_table", [j \in DOMAIN v.c |-> Msg("expressions", [i \in DOMAIN v.c[j].c |->
                IF v.c[j].k = "values" THEN Msg("fields", <<NormLit(As("literal", v.c[j].c[i]))>>) ELSE NormG(v.c[j].c[i])])])
RECURSIVE NormR(_)
NormR(r) ==
    LET x == Op(r)
        rest == SelectSeq(x.c, LAMBDA y : y.k \notin {"common", "keys", "left_keys", "right_keys", "groupings", "grouping_expressions"} /\ ~(x.k = "write" /\ y.k = "output"))
        body == [j \in DOMAIN rest |-> LET y == rest[j] IN
                    IF y.k \in InputKs THEN As(y.k, NormR(As("rel", y)))
                    ELSE IF y.k = "virtual_table" THEN NormVT(y)
                    ELSE NormG(y)]
        extra == IF x.k \in {"hash_join", "merge_join"} THEN LET ks == NormKeys(x) IN [j \in DOMAIN ks |-> [ks[j] EXCEPT !.c = [i \in DOMAIN ks[j].c |->
                        IF ks[j].c[i].k \in {"left", "right"} THEN As(ks[j].c[i].k, RefNode(ks[j].c[i])) ELSE ks[j].c[i]]]]
                 ELSE IF x.k = "aggregate" THEN NormGroups(x) ELSE <<>> IN
    R(Msg(x.k, <<NormCommon(x)>> \o body \o extra))
(* The deprecated key lists may accompany the keys only when every comparison is plain equality, and then agree with them. *)
LegacyOk(x) == LET ks == Kids(x, "keys") l == Kids(x, "left_keys") r == Kids(x, "right_keys") IN
    \/ l = <<>> /\ r = <<>>
    \/ /\ Len(l) = Len(ks) /\ Len(r) = Len(ks)
       /\ \A j \in DOMAIN ks : Kid(ks[j], "comparison") = EqCmp /\ RefNode(Kid(ks[j], "left")) = RefNode(l[j]) /\ RefNode(Kid(ks[j], "right")) = RefNode(r[j])
NormRoot(p) == IF p.c[1].k = "root" THEN Msg("relations", <<Msg("root", [j \in DOMAIN p.c[1].c |-> IF p.c[1].c[j].k = "input" THEN As("input", NormR(As("rel", p.c[1].c[j]))) ELSE p.c[1].c[j]])>>)
               ELSE Msg("relations", <<As("rel", NormR(As("rel", p.c[1])))>>)

(* ---- the expressions a relation carries (its join keys, plain references, aside) ---- *)
MapMeasure(m, f(_)) == [m EXCEPT !.c = [j \in DOMAIN m.c |-> IF m.c[j].k = "filter" THEN As("filter", f(As("e", m.c[j]))) ELSE IF m.c[j].k = "measure" THEN MapArgs(m.c[j], f) ELSE m.c[j]]]
MapExprs(r, f(_)) ==
    LET x == Op(r) y == CASE x.k = "read" -> [MapField(x, {"filter", "best_effort_filter"}, f) EXCEPT !.c = [j \in DOMAIN @ |-> IF @[j].k = "virtual_table" THEN MapIn(@[j], "expressions", {"fields"}, f) ELSE @[j]]]
                          [] x.k = "filter" -> MapField(x, {"condition"}, f)
                          [] x.k = "project" -> MapField(x, {"expressions"}, f)
                          [] x.k = "join" -> MapField(x, {"expression", "post_join_filter"}, f)
                          [] x.k \in {"hash_join", "merge_join"} -> MapField(x, {"post_join_filter"}, f)
                          [] x.k = "sort" -> MapIn(x, "sorts", {"expr"}, f)
                          [] x.k = "aggregate" -> [MapField(x, {"grouping_expressions"}, f) EXCEPT !.c = [j \in DOMAIN @ |-> IF @[j].k = "measures" THEN MapMeasure(@[j], f) ELSE @[j]]]
                          [] OTHER -> x IN
    R(y)
ExprsOf(r) ==
    LET x == Op(r) s == CASE x.k = "read" -> Sub(x, {"filter", "best_effort_filter"}) \o (IF Has(x, "virtual_table") THEN In2(Kid(x, "virtual_table"), "expressions", {"fields"}) ELSE <<>>)
                          [] x.k = "filter" -> Sub(x, {"condition"})
                          [] x.k = "project" -> Sub(x, {"expressions"})
                          [] x.k = "join" -> Sub(x, {"expression", "post_join_filter"})
                          [] x.k \in {"hash_join", "merge_join"} -> Sub(x, {"post_join_filter"})
                          [] x.k = "sort" -> In2(x, "sorts", {"expr"})
                          [] x.k = "aggregate" -> Sub(x, {"grouping_expressions"}) \o
                                Flat([j \in DOMAIN x.c |-> IF x.c[j].k = "measures" THEN Args(Kid(x.c[j], "measure")) \o In2(Kid(x.c[j], "measure"), "sorts", {"expr"}) \o Sub(x.c[j], {"filter"}) ELSE <<>>])
                          [] OTHER -> <<>> IN
    [j \in DOMAIN s |-> As("e", s[j])]
KeyRefs(r) == LET ks == Kids(Op(r), "keys") IN Flat([j \in DOMAIN ks |-> <<E(As("selection", Kid(ks[j], "left"))), E(As("selection", Kid(ks[j], "right")))>>])

(* ---- grammar ---- *)
GAny1(k) == Msg(k, NZ("type_url", Pick(<<"u/a", "u/b", "">>), "") \o NZ("value", Pick(<<"0a01", "ff00", "">>), ""))
GAdv(x) == LET w == RE(1..5) IN
    IF w > 2 THEN <<>> ELSE <<Msg("advanced_extension", TLCEval([j \in 1..RE(0..2) |-> GAny1("optimization")]) \o OptF(Chance(1, 2), GAny1("enhancement")))>>
GHint(x) == Msg("hint", OptF(Chance(1, 2), Msg("stats", <<Sc("row_count", Pick(<<"1.5", "100">>)), Sc("record_size", "8")>> \o GAdv(0)))
    \o OptF(Chance(1, 3), Msg("constraint", GAdv(0)))
    \o NZ("alias", Pick(<<"", "al">>), "") \o TLCEval([j \in 1..RE(0..2) |-> Sc("output_names", "o" \o ToString(j))]) \o GAdv(0)
    \o OptF(Chance(1, 4), Msg("saved_computations", <<Sc("computation_id", "3"), Sc("type", "COMPUTATION_TYPE_HASHTABLE")>>)))
GMapping(n) == LET m == IF n = 0 THEN 0 ELSE RE(0..(n + 1)) IN TLCEval([j \in 1..m |-> RE(0..(n - 1))])
GCommon(n, emit) == LET w == RE(1..6) h == TLCEval(OptF(Chance(1, 5), GHint(0)) \o GAdv(0)) IN
    IF w = 1 THEN <<>> ELSE IF w = 2 THEN <<Msg("common", h)>>
    ELSE IF w < 5 \/ ~emit THEN <<Msg("common", <<Msg("direct", <<>>)>> \o h)>>
    ELSE <<Msg("common", <<MkEmit(GMapping(n))>> \o h)>>
RECURSIVE GKnown(_, _, _)
GKnown(t, cx, d) == LET e == TLCEval(GE(t, cx, d)) IN IF OpenType(e, cx) \/ TypeOfE(e, cx) # NormT(t) THEN (IF d = 0 THEN E(GLitOf(t, 2)) ELSE GKnown(t, cx, d - 1)) ELSE e
GB(cx, d) == GE(Bool(Pick(<<"1", "2">>)), cx, d)
ColT(x) == GLT(IF Chance(1, 4) THEN Pick(<<"struct", "list", "map">>) ELSE Pick(LitKinds), RE(0..2))
GCols(x) == TLCEval([j \in 1..RE(1..3) |-> ColT(0)])
NSMsg(k, ts) == As(k, NStructMsg(ts))
Names1(x) == TLCEval([j \in 1..RE(1..2) |-> Sc("names", Pick(<<"db", "t1", "t2", "">>))])
GAnyD(url) == Msg("detail", NZ("type_url", url, "") \o NZ("value", IF url = "vh/par" THEN Pick(<<"", "7005", "7103", "70007101", "710b7109">>) ELSE Pick(<<"0a01", "">>), ""))
(* what the details of the registered definition "vh/par" encode: dynamic parameters *)
DetailParams(v) == LET I(a) == [a |-> a, t |-> T0("i32", "2")] S(a) == [a |-> a, t |-> T0("string", "1")] IN
    CASE v = "7005" -> <<I("5")>> [] v = "7103" -> <<S("3")>> [] v = "70007101" -> <<I("0"), S("1")>> [] v = "710b7109" -> <<S("11"), S("9")>> [] OTHER -> <<>>
GFile(x) == Msg("items", <<Sc(Pick(<<"uri_path", "uri_path_glob", "uri_file", "uri_folder">>), Pick(<<"f://a", "", "x*">>))>> \o NZ("partition_index", Pick(<<"0", "7", "18446744073709551615">>), "0")
    \o NZ("start", Pick(<<"0", "10">>), "0") \o NZ("length", Pick(<<"0", "4096">>), "0")
    \o (LET w == RE(1..7) IN
        IF w = 1 THEN <<>> ELSE IF w = 2 THEN <<GAny1("extension")>>
        ELSE IF w = 3 THEN <<Msg("text", <<Sc("field_delimiter", ","), Sc("max_line_size", "80"), Sc("quote", "q"), Sc("header_lines_to_skip", "1"), Sc("escape", "e")>> \o OptF(Chance(1, 2), Sc("value_treated_as_null", Pick(<<"", "NULL">>))))>>
        ELSE <<Msg(Pick(<<"parquet", "arrow", "orc", "dwrf">>), <<>>)>>))
NoCx == Struct0(<<>>)
GReadOf(ts, d) ==
    LET own == Struct0(ts) cm == TLCEval(GCommon(Len(ts), TRUE)) w == RE(1..8)
        f1 == TLCEval(OptF(Chance(1, 3), As("filter", GB(own, d)))) f2 == TLCEval(OptF(Chance(1, 4), As("best_effort_filter", GB(own, d))))
        body == TLCEval(CASE w <= 2 -> Msg("named_table", Names1(0) \o GAdv(0))
                  [] w = 3 -> Msg("virtual_table", TLCEval([j \in 1..RE(0..2) |-> Msg("values", TLCEval([i \in DOMAIN ts |-> As("fields", GLitOf(ts[i], 2))]))]))
                  [] w = 4 -> Msg("virtual_table", TLCEval([j \in 1..RE(1..2) |-> Msg("expressions", TLCEval([i \in DOMAIN ts |-> As("fields", GE(ts[i], NoCx, d))]))]))
                  [] w = 5 -> Msg("local_files", TLCEval([j \in 1..RE(0..2) |-> GFile(0)]) \o GAdv(0))
                  [] w = 6 -> Msg("extension_table", <<GAnyD(Pick(<<"u/x", "vh/two">>))>>)
                  [] w = 7 -> Msg("iceberg_table", <<Msg("direct", NZ("metadata_uri", Pick(<<"m://1", "">>), "") \o (LET z == RE(1..3) IN IF z = 1 THEN <<>> ELSE IF z = 2 THEN <<Sc("snapshot_id", Pick(<<"s1", "9">>))>>
                                ELSE <<Sc("snapshot_timestamp", Pick(<<"12345", "-1", "0">>))>>))>>)
                  [] OTHER -> Msg("named_table", Names1(0))) IN
    R(Msg("read", cm \o <<NSMsg("base_schema", ts)>> \o f1 \o <<body>> \o GAdv(0) \o f2))
PlainRead(ts) == R(Msg("read", <<Msg("common", <<Msg("direct", <<>>)>>), NSMsg("base_schema", ts), Msg("named_table", <<Sc("names", Pick(<<"p", "q">>))>>)>>))

JoinTypes == <<"JOIN_TYPE_INNER", "JOIN_TYPE_OUTER", "JOIN_TYPE_LEFT", "JOIN_TYPE_RIGHT", "JOIN_TYPE_LEFT_SEMI", "JOIN_TYPE_LEFT_ANTI", "JOIN_TYPE_LEFT_SINGLE", "JOIN_TYPE_RIGHT_SEMI", "JOIN_TYPE_RIGHT_ANTI", "JOIN_TYPE_RIGHT_SINGLE", "JOIN_TYPE_LEFT_MARK", "JOIN_TYPE_RIGHT_MARK">>
SetOps == <<"SET_OP_MINUS_PRIMARY", "SET_OP_MINUS_PRIMARY_ALL", "SET_OP_MINUS_MULTISET", "SET_OP_INTERSECTION_PRIMARY", "SET_OP_INTERSECTION_MULTISET", "SET_OP_INTERSECTION_MULTISET_ALL", "SET_OP_UNION_DISTINCT", "SET_OP_UNION_ALL">>
FieldRef(k, cx) == LET h == Pick(PathsOf(cx, 2)) IN Msg(k, <<Msg("direct_reference", <<SegTree(cx, h.p)>>)>> \o RootR)
Simples == <<"SIMPLE_COMPARISON_TYPE_EQ", "SIMPLE_COMPARISON_TYPE_IS_NOT_DISTINCT_FROM", "SIMPLE_COMPARISON_TYPE_MIGHT_EQUAL">>
RECURSIVE GR(_)
RECURSIVE GRT(_, _)
WithCommon(x, emit) ==   \* give an operation (without common) a common part fitting its direct output; writes have it further back
    LET n == Len(DirectR(R(x))) cm == TLCEval(GCommon(n, emit)) IN R([x EXCEPT !.c = cm \o @])
(* relations with exactly the column types ts *)
GRT(ts, d) ==
    IF d <= 0 \/ ts = <<>> \/ Chance(1, 4) THEN PlainRead(ts) ELSE LET w == RE(1..5) in == TLCEval(IF w <= 3 THEN GRT(ts, d - 1) ELSE NilNode) own == Struct0(ts) IN
    CASE w = 1 -> WithCommon(Msg("filter", <<As("input", in), As("condition", GB(own, 1))>> \o GAdv(0)), FALSE)
      [] w = 2 -> WithCommon(Msg("fetch", <<As("input", in), Sc("offset", Pick(<<"0", "5">>)), Sc("count", Pick(<<"0", "-1", "10">>))>> \o GAdv(0)), FALSE)
      [] w = 3 -> WithCommon(Msg("set", <<As("inputs", in), As("inputs", GRT(ts, 0)), Sc("op", Pick(SetOps))>> \o GAdv(0)), FALSE)
      [] OTHER -> LET in2 == TLCEval(GR(d - 1)) sch == TLCEval(SchemaR(in2)) cx == Struct0(sch) es == TLCEval([j \in DOMAIN ts |-> As("expressions", GKnown(ts[j], cx, 1))]) IN
            R(Msg("project", <<Msg("common", <<MkEmit([j \in DOMAIN ts |-> Len(sch) + j - 1])>>), As("input", in2)>> \o es))
GKeys(lc, rc, x) ==
    LET w == RE(1..4) m == RE(1..2) l == TLCEval([j \in 1..m |-> FieldRef("left", Struct0(lc))]) r == TLCEval([j \in 1..m |-> FieldRef("right", Struct0(rc))]) IN
    IF lc = <<>> \/ rc = <<>> THEN [old |-> <<>>, new |-> <<>>]
    ELSE IF w = 1 THEN [old |-> [j \in 1..m |-> As("left_keys", l[j])] \o [j \in 1..m |-> As("right_keys", r[j])], new |-> <<>>]
    ELSE LET ks == TLCEval([j \in 1..m |-> Msg("keys", <<l[j], r[j], Msg("comparison", <<IF w = 2 THEN Sc("simple", "SIMPLE_COMPARISON_TYPE_EQ") ELSE IF Chance(1, 3) THEN Sc("custom_function_reference", "1") ELSE Sc("simple", Pick(Simples))>>)>>)]) IN
         [old |-> IF w = 2 /\ Chance(1, 2) THEN [j \in 1..m |-> As("left_keys", l[j])] \o [j \in 1..m |-> As("right_keys", r[j])] ELSE <<>>, new |-> ks]
(* an expression whose type is fixed, of any type *)
GAnyK(cx, d) == LET paths == PathsOf(cx, 2) t == TLCEval(IF paths # <<>> /\ Chance(1, 2) THEN Pick(paths).t ELSE ColT(0)) IN GKnown(t, cx, d)
GMeasure(cx, d) == LET f == TLCEval(OptF(Chance(1, 3), As("filter", GB(cx, d)))) IN Msg("measures", <<As("measure", GAgg(cx, d))>> \o f)
NoDupes(s) == Dedup([j \in DOMAIN s |-> NormE(s[j])])
GAggregate(in, sch) ==
    LET cx == Struct0(sch) old == Chance(1, 4)
        es == TLCEval(LET m == RE(0..3) raw == TLCEval([j \in 1..m |-> GAnyK(cx, 1)]) IN NoDupes(SelectSeq(raw, LAMBDA e : ~HasNaN(e) /\ ~HasSub(e))))
        ms == TLCEval([j \in 1..(IF es = <<>> THEN RE(1..2) ELSE RE(0..3)) |-> GMeasure(cx, 1)])
        perm == TLCEval(LET s == RE(1..2) IN [j \in DOMAIN es |-> IF s = 1 THEN j ELSE Len(es) + 1 - j])
        sub(x) == TLCEval(SelectSeq(perm, LAMBDA j : Chance(1, 2)))
        m == RE(1..6) sets == TLCEval(IF m <= 4 THEN <<perm>> ELSE IF m = 5 THEN <<perm, sub(0)>> ELSE <<sub(0), perm, sub(1)>>)
        grp == IF es = <<>> THEN (IF Chance(1, 2) THEN <<>> ELSE <<Msg("groupings", <<>>)>>)
               ELSE [i \in DOMAIN sets |-> Msg("groupings", [j \in DOMAIN sets[i] |-> IF old THEN As("grouping_expressions", es[sets[i][j]]) ELSE Sc("expression_references", ToString(sets[i][j] - 1))])] IN
    Msg("aggregate", <<As("input", in)>> \o TLCEval(grp) \o ms \o (IF old THEN <<>> ELSE [j \in DOMAIN es |-> As("grouping_expressions", es[j])]) \o GAdv(0))
Kinds == <<"read", "filter", "project", "join", "cross", "fetch", "sort", "aggregate", "set", "hash_join", "merge_join", "extension_single", "extension_multi", "extension_leaf", "write">>
GW(k, d) ==
    LET in == TLCEval(IF k \in {"read", "extension_leaf", "set"} THEN NilNode ELSE GR(d - 1)) in2 == TLCEval(IF k \in {"join", "cross", "hash_join", "merge_join", "extension_multi"} THEN GR(Max2(d - 2, 0)) ELSE NilNode)
        sch == TLCEval(IF IsNil(in) THEN <<>> ELSE SchemaR(in)) sch2 == TLCEval(IF IsNil(in2) THEN <<>> ELSE SchemaR(in2)) cx == Struct0(sch) cxj == Struct0(sch \o sch2) IN
    CASE k = "read" -> GReadOf(GCols(0), 1)
      [] k = "filter" -> WithCommon(Msg("filter", <<As("input", in), As("condition", GB(cx, 2))>> \o GAdv(0)), TRUE)
      [] k = "project" -> WithCommon(Msg("project", <<As("input", in)>> \o TLCEval([j \in 1..RE(1..3) |-> As("expressions", GAnyK(cx, 2))]) \o GAdv(0)), TRUE)
      [] k = "join" -> LET f == TLCEval(OptF(Chance(1, 3), As("post_join_filter", GB(cxj, 1)))) IN
            WithCommon(Msg("join", <<As("left", in), As("right", in2), As("expression", GB(cxj, 2))>> \o f \o <<Sc("type", Pick(JoinTypes))>> \o GAdv(0)), TRUE)
      [] k = "cross" -> WithCommon(Msg("cross", <<As("left", in), As("right", in2)>> \o GAdv(0)), TRUE)
      [] k = "fetch" -> WithCommon(Msg("fetch", <<As("input", in), Sc("offset", Pick(<<"0", "5", "9223372036854775807">>)), Sc("count", Pick(<<"0", "-1", "10">>))>> \o GAdv(0)), TRUE)
      [] k = "sort" -> WithCommon(Msg("sort", <<As("input", in)>> \o TLCEval([j \in 1..RE(1..2) |-> GSort(cx, 1)]) \o GAdv(0)), TRUE)
      [] k = "aggregate" -> WithCommon(GAggregate(in, sch), TRUE)
      [] k = "set" -> LET ts == TLCEval(GCols(0)) IN WithCommon(Msg("set", TLCEval([j \in 1..RE(2..3) |-> As("inputs", GRT(ts, d - 1))]) \o <<Sc("op", Pick(SetOps))>> \o GAdv(0)), TRUE)
      [] k \in {"hash_join", "merge_join"} -> LET f == TLCEval(OptF(Chance(1, 2), As("post_join_filter", GB(cxj, 1)))) ks == TLCEval(GKeys(sch, sch2, 0)) IN
            WithCommon(Msg(k, <<As("left", in), As("right", in2)>> \o ks.old \o f \o <<Sc("type", Pick(JoinTypes))>> \o ks.new
                \o (IF k = "hash_join" THEN NZ("build_input", Pick(<<"BUILD_INPUT_UNSPECIFIED", "BUILD_INPUT_LEFT", "BUILD_INPUT_RIGHT">>), "BUILD_INPUT_UNSPECIFIED") ELSE <<>>) \o GAdv(0)), TRUE)
      [] k = "extension_single" -> WithCommon(Msg(k, <<As("input", in), GAnyD(Pick(<<"vh/two", "vh/cat", "u/y", "", "vh/par">>))>>), TRUE)
      [] k = "extension_multi" -> WithCommon(Msg(k, <<As("inputs", in), As("inputs", in2)>> \o <<GAnyD(Pick(<<"vh/two", "vh/cat", "vh/par">>))>>), TRUE)
      [] k = "extension_leaf" -> WithCommon(Msg(k, <<GAnyD(Pick(<<"vh/two", "vh/par">>))>>), TRUE)
      [] k = "write" -> LET ts == sch op == Pick(<<"WRITE_OP_INSERT", "WRITE_OP_DELETE", "WRITE_OP_CTAS">>)
                            x == Msg("write", <<Msg("named_table", Names1(0) \o GAdv(0)), NSMsg("table_schema", ts), Sc("op", op), As("input", in),
                                   Sc("output", Pick(<<"OUTPUT_MODE_NO_OUTPUT", "OUTPUT_MODE_MODIFIED_RECORDS">>))>>) IN
            LET xx == TLCEval(x) cm == TLCEval(GCommon(Len(DirectR(R(xx))), TRUE)) IN
            R([xx EXCEPT !.c = @ \o cm \o (IF op = "WRITE_OP_CTAS" THEN NZ("create_mode", Pick(<<"", "CREATE_MODE_REPLACE_IF_EXISTS", "CREATE_MODE_ERROR_IF_EXISTS">>), "") ELSE <<>>) \o GAdv(0)])
GR(d) == IF d <= 0 \/ Chance(1, 5) THEN (IF Chance(1, 10) THEN GW("extension_leaf", 0) ELSE GReadOf(GCols(0), 1)) ELSE GW(Pick(SubSeq(Kinds, 2, Len(Kinds) - 1)), d)
(* an extension nobody has a definition for *)
GUndecoded(x) == IF Chance(1, 2) THEN R(Msg("extension_leaf", GCommon(0, FALSE) \o <<GAnyD(Pick(<<"u/z", "">>))>>))
    ELSE R(Msg("extension_multi", GCommon(0, FALSE) \o <<As("inputs", GR(1)), As("inputs", GR(1)), GAnyD("u/z")>>))
TopK(m) == Kinds[(m % Len(Kinds)) + 1]
(* the parts of a plan, its declarations aside *)
GPlan(m) ==
    LET k == RE(1..2) rs == TLCEval([j \in 1..k |-> LET r == TLCEval(GW(TopK(m + 7 * j), Pick(<<1, 2>>))) w == RE(1..3) nn == NFields(Struct0(SchemaR(r))) IN
                IF w = 1 THEN Msg("relations", <<As("rel", r)>>)
                ELSE Msg("relations", <<Msg("root", <<As("input", r)>> \o [i \in 1..nn |-> Sc("names", Pick(<<"a", "b", "">>))])>>)]) IN
    rs \o TLCEval(OptF(Chance(1, 2), Msg("advanced_extensions", <<GAny1("enhancement")>>)))
       \o TLCEval([j \in 1..RE(0..2) |-> Sc("expected_type_urls", Pick(<<"type.x/y", "z">>))])
       \o OptF(Chance(1, 2), Msg("version", <<Sc("minor_number", "42"), Sc("git_hash", "aa"), Sc("producer", "p q")>>))
       \o TLCEval([j \in 1..RE(0..2) |-> Msg("parameter_bindings", NZ("parameter_anchor", ToString(RE(0..3)), "0") \o <<As("value", GLitOf(ColT(0), 1))>>)])
(* a read with a projection: any mask, or one that keeps whole columns *)
GMasked(flat) ==
    LET ts == TLCEval([j \in 1..RE(2..4) |-> ColT(0)]) r == TLCEval(GReadOf(ts, 0)) op == Op(r)
        lo == RE(0..(Len(ts) - 2)) keep == TLCEval(SelectSeq([j \in 1..Len(ts) |-> j - 1], LAMBDA f : f = lo \/ f = Len(ts) - 1 \/ Chance(1, 2)))
        mk == TLCEval(IF flat THEN Msg("projection", <<Msg("select", [j \in DOMAIN keep |-> Msg("struct_items", <<Sc("field", ToString(keep[j]))>>)])>>) ELSE As("projection", GMask(0))) IN
    R([op EXCEPT !.c = SelectSeq(@, LAMBDA y : y.k # "common") \o <<Msg("common", <<Msg("direct", <<>>)>>), mk>>])
GMaskedR(x) == GMasked(Chance(1, 2))
=============================================================================
