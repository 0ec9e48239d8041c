-------------------------------- MODULE Build --------------------------------
(* The plan builder as a machine over the relations built so far. BRes gives what a call must do: refuse, or hand out exactly
   this relation; nothing built before is touched (BApply). PlanRes and BindOk do the same for whole plans. *)
EXTENDS Rels

BOk(r) == [ok |-> TRUE, r |-> r]
BErr == [ok |-> FALSE, r |-> NilNode]
At(pool, h) == pool[h]
Cols(pool, h) == IF h = 0 THEN <<>> ELSE SchemaR(pool[h])
(* the operation x without a common part, with the mapping asked for, if it fits *)
Mk(x, m) == LET r == TLCEval(R([x EXCEPT !.c = <<Msg("common", <<Msg("direct", <<>>)>>)>> \o @])) IN
    IF m = <<>> THEN BOk(r) ELSE IF RemapOk(r, m[1]) THEN BOk(WithEmit(r, m)) ELSE BErr
IsB(e, cx) == ~IsNil(e) /\ LET x == Rex(e) IN (x.k \in {"singular_or_list", "multi_or_list"} \/ (x.k = "subquery" /\ ~Has(x, "scalar")) \/ TypeOfE(e, cx).k = "bool")
NamedTS(k, names, ts) == Msg(k, [j \in DOMAIN names |-> Sc("names", names[j])] \o <<Msg("struct", [j \in DOMAIN ts |-> Msg("types", <<ts[j]>>)] \o <<Sc("nullability", "NULLABILITY_REQUIRED")>>)>>)
TableN(names) == Msg("named_table", [j \in DOMAIN names |-> Sc("names", names[j])])
DetailN(url) == Msg("detail", NZ("type_url", url, "") \o <<Sc("value", IF url = "vh/par" THEN "70007101" ELSE "0a01")>>)
RowTypes(row) == [j \in DOMAIN row |-> TypeOfE(row[j], NoCx)]
RowsOk(rows) == rows # <<>> /\ \A j \in DOMAIN rows : Len(rows[j]) = Len(rows[1]) /\ \A i \in DOMAIN rows[j] : ~IsNil(rows[j][i]) /\ TypeOfE(rows[j][i], NoCx) = TypeOfE(rows[1][i], NoCx)
MeasureOk(m, cx) == Has(m, "measure")
FilterOk(m, cx) == Has(m, "filter") => IsB(As("e", Kid(m, "filter")), cx)
AggTree(in, es, sets, ms) == Msg("aggregate", <<As("input", in)>> \o [j \in DOMAIN sets |-> Msg("groupings", [i \in DOMAIN sets[j] |-> Sc("expression_references", ToString(sets[j][i]))])]
    \o ms \o [j \in DOMAIN es |-> As("grouping_expressions", es[j])])
AggOk(cx, es, sets, ms) ==
    /\ \A j \in DOMAIN ms : MeasureOk(ms[j], cx)
    /\ ms = <<>> => (sets # <<>> /\ es # <<>>)
    /\ \A j \in DOMAIN es : ~IsNil(es[j])
    /\ \A j \in DOMAIN sets : \A i \in DOMAIN sets[j] : sets[j][i] >= 0 /\ sets[j][i] < Len(es)
SubTree(st, pool) ==
    CASE st.x = "scalar" -> Msg("scalar", <<As("input", pool[st.h])>>)
      [] st.x = "in" -> Msg("in_predicate", [j \in DOMAIN st.es |-> As("needles", st.es[j])] \o <<As("haystack", pool[st.h])>>)
      [] st.x = "set" -> Msg("set_predicate", <<Sc("predicate_op", st.names[1]), As("tuples", pool[st.h])>>)
      [] st.x = "cmp" -> Msg("set_comparison", <<Sc("reduction_op", st.names[1]), Sc("comparison_op", st.names[2]), As("left", st.es[1]), As("right", pool[st.h])>>)
SubOk(st, pool) ==
    /\ st.h # 0
    /\ st.x \in {"scalar", "cmp"} => Len(SchemaR(pool[st.h])) = 1
    /\ st.x = "in" => st.es # <<>> /\ Len(st.es) = Len(SchemaR(pool[st.h]))
    /\ \A j \in DOMAIN st.es : ~IsNil(st.es[j])
    /\ \A j \in DOMAIN st.names : st.names[j] \notin {"PREDICATE_OP_UNSPECIFIED", "REDUCTION_OP_UNSPECIFIED", "COMPARISON_OP_UNSPECIFIED"}
(* what each call must do *)
BRes(pool, st) ==
    LET h == st.h g == st.g cx == TLCEval(Struct0(Cols(pool, h))) cxj == TLCEval(Struct0(Cols(pool, h) \o Cols(pool, g)))
        in == IF h = 0 THEN NilNode ELSE pool[h] in2 == IF g = 0 THEN NilNode ELSE pool[g] none == \E j \in DOMAIN st.es : IsNil(st.es[j])
        common1(x) == IF h = 0 THEN BErr ELSE Mk(x, st.m) IN
    CASE st.a = "scan" -> Mk(Msg("read", <<NamedTS("base_schema", st.names, st.ts), TableN(st.urls)>>), st.m)
      [] st.a = "vt" -> IF ~RowsOk(st.rows) \/ Len(st.names) # NFields(Struct0(RowTypes(st.rows[1]))) THEN BErr
            ELSE Mk(Msg("read", <<NamedTS("base_schema", st.names, RowTypes(st.rows[1])), Msg("virtual_table", [j \in DOMAIN st.rows |-> Msg("expressions", [i \in DOMAIN st.rows[j] |-> As("fields", st.rows[j][i])])])>>), st.m)
      [] st.a = "evt" -> IF Len(st.names) # NFields(Struct0(st.ts)) THEN BErr ELSE Mk(Msg("read", <<NamedTS("base_schema", st.names, st.ts), Msg("virtual_table", <<>>)>>), <<>>)
      [] st.a = "ext" -> Mk(Msg("read", <<NamedTS("base_schema", st.names, st.ts), Msg("extension_table", <<DetailN(st.x)>>)>>), <<>>)
      [] st.a = "iceberg" -> Mk(Msg("read", <<NamedTS("base_schema", st.names, st.ts), Msg("iceberg_table", <<Msg("direct", NZ("metadata_uri", st.urls[1], "") \o
                (CASE st.x = "id" -> <<Sc("snapshot_id", st.off)>> [] st.x = "ts" -> <<Sc("snapshot_timestamp", st.off)>> [] OTHER -> <<>>))>>)>>), <<>>)
      [] st.a = "leaf" -> IF st.x = "" THEN BErr ELSE Mk(Msg("extension_leaf", <<DetailN(st.x)>>), <<>>)
      [] st.a = "single" -> IF h = 0 \/ st.x = "" THEN BErr ELSE Mk(Msg("extension_single", <<As("input", in), DetailN(st.x)>>), <<>>)
      [] st.a = "multi" -> IF st.ins = <<>> \/ st.x = "" \/ \E j \in DOMAIN st.ins : st.ins[j] = 0 THEN BErr
            ELSE Mk(Msg("extension_multi", [j \in DOMAIN st.ins |-> As("inputs", pool[st.ins[j]])] \o <<DetailN(st.x)>>), <<>>)
      [] st.a = "filter" -> IF h = 0 \/ ~IsB(st.es[1], cx) THEN BErr ELSE Mk(Msg("filter", <<As("input", in), As("condition", st.es[1])>>), st.m)
      [] st.a = "project" -> IF h = 0 \/ st.es = <<>> \/ none THEN BErr ELSE Mk(Msg("project", <<As("input", in)>> \o [j \in DOMAIN st.es |-> As("expressions", st.es[j])]), st.m)
      [] st.a = "fetch" -> IF h = 0 \/ st.off \notin {"0", "5", "9223372036854775807"} \/ st.cnt \notin {"0", "10", "-1", "9223372036854775807"} THEN BErr
            ELSE Mk(Msg("fetch", <<As("input", in), Sc("offset", st.off), Sc("count", st.cnt)>>), st.m)
      [] st.a = "sort" -> IF h = 0 \/ st.sorts = <<>> \/ \E j \in DOMAIN st.sorts : ~Has(st.sorts[j], "expr") THEN BErr ELSE Mk(Msg("sort", <<As("input", in)>> \o st.sorts), st.m)
      [] st.a = "sortcols" -> IF h = 0 \/ st.idx = <<>> \/ \E j \in DOMAIN st.idx : st.idx[j] < 0 \/ st.idx[j] >= Len(cx.c) THEN BErr
            ELSE Mk(Msg("sort", <<As("input", in)>> \o [j \in DOMAIN st.idx |-> Msg("sorts", <<As("expr", E(Msg("selection", <<Msg("direct_reference", <<Msg("struct_field", NZ("field", ToString(st.idx[j]), "0"))>>)>> \o RootR))), Sc("direction", "SORT_DIRECTION_ASC_NULLS_LAST")>>)]), st.m)
      [] st.a = "join" ->    \* es: the condition and perhaps a filter applied after joining
            IF h = 0 \/ g = 0 \/ st.x \notin {JoinTypes[j] : j \in DOMAIN JoinTypes} \/ \E j \in DOMAIN st.es : ~IsB(st.es[j], cxj) THEN BErr
            ELSE Mk(Msg("join", <<As("left", in), As("right", in2), As("expression", st.es[1])>> \o (IF Len(st.es) = 2 THEN <<As("post_join_filter", st.es[2])>> ELSE <<>>) \o <<Sc("type", st.x)>>), st.m)
      [] st.a = "cross" -> IF h = 0 \/ g = 0 THEN BErr ELSE Mk(Msg("cross", <<As("left", in), As("right", in2)>>), st.m)
      [] st.a = "set" -> IF Len(st.ins) < 2 \/ (\E j \in DOMAIN st.ins : st.ins[j] = 0) \/ st.x = "SET_OP_UNSPECIFIED" THEN BErr
            ELSE IF \E j \in DOMAIN st.ins : SchemaR(pool[st.ins[j]]) # SchemaR(pool[st.ins[1]]) THEN BErr
            ELSE Mk(Msg("set", [j \in DOMAIN st.ins |-> As("inputs", pool[st.ins[j]])] \o <<Sc("op", st.x)>>), st.m)
      [] st.a = "write" -> IF h = 0 \/ st.x = "WRITE_OP_UNSPECIFIED" THEN BErr
            ELSE Mk(Msg("write", <<TableN(st.urls), NamedTS("table_schema", st.names, st.ts), Sc("op", st.x), As("input", in), Sc("output", IF st.x = "WRITE_OP_CTAS" THEN "OUTPUT_MODE_MODIFIED_RECORDS" ELSE "OUTPUT_MODE_NO_OUTPUT")>>), st.m)
      [] st.a = "aggcols" -> IF h = 0 \/ (\E j \in DOMAIN st.idx : st.idx[j] < 0 \/ st.idx[j] >= Len(cx.c)) \/ (st.idx = <<>> /\ st.ms = <<>>) \/ (\E j \in DOMAIN st.ms : ~MeasureOk(st.ms[j], cx)) THEN BErr
            ELSE Mk(AggTree(in, [j \in DOMAIN st.idx |-> E(Msg("selection", <<Msg("direct_reference", <<Msg("struct_field", NZ("field", ToString(st.idx[j]), "0"))>>)>> \o RootR))],
                            IF st.idx = <<>> THEN <<>> ELSE <<[j \in DOMAIN st.idx |-> j - 1]>>, st.ms), <<>>)
      [] st.a = "aggexprs" ->    \* groups name expressions; each takes its place at first use
            LET order == TLCEval(Dedup(Flat(st.groups))) es == [j \in DOMAIN order |-> st.es[order[j]]] sets == [j \in DOMAIN st.groups |-> [i \in DOMAIN st.groups[j] |-> PosIn(order, st.groups[j][i]) - 1]] IN
            IF h = 0 \/ ~AggOk(cx, es, sets, st.ms) THEN BErr ELSE Mk(AggTree(in, es, sets, st.ms), <<>>)
      [] st.a = "remap" -> IF RemapOk(in, st.m[1]) THEN BOk(Remap(in, st.m[1])) ELSE BErr
      [] st.a = "subfilter" ->      \* a subquery predicate over one relation as the condition of a filter over another
            IF ~SubOk(st, pool) THEN BErr ELSE Mk(Msg("filter", <<As("input", in2), As("condition", E(Msg("subquery", <<SubTree(st, pool)>>)))>>), <<>>)
      [] st.a = "subproject" ->     \* a scalar subquery, cast so that its type is spelled out
            IF ~SubOk(st, pool) THEN BErr ELSE Mk(Msg("project", <<As("input", in2), As("expressions", E(Msg("cast", <<Msg("type", <<SchemaR(pool[st.h])[1]>>), As("input", E(Msg("subquery", <<SubTree(st, pool)>>)))>>)))>>), <<>>)
BApply(pool, st) == LET r == TLCEval(BRes(pool, st)) IN IF r.ok THEN Append(pool, r.r) ELSE pool

(* ---- plans ---- *)
RECURSIVE ParamsIn(_)
ParamsIn(x) == (IF x.k = "dynamic_parameter" THEN <<[a |-> Attr(x, "parameter_reference", "0"), t |-> NormT(Kid(x, "type").c[1])]>> ELSE <<>>) \o (IF x.k \in {"extension_single", "extension_multi", "extension_leaf"} /\ Detail(x) = "vh/par" THEN DetailParams(Attr(Kid(x, "detail"), "value", "")) ELSE <<>>) \o Flat([j \in DOMAIN x.c |-> ParamsIn(x.c[j])])
LooseT(t) == WithNull(NormT(t), "1")
BindOk(ps, bs) ==      \* bs: sequence of [a |-> anchor, v |-> literal]
    /\ \A i, j \in DOMAIN bs : i # j => bs[i].a # bs[j].a
    /\ \A j \in DOMAIN bs : ~IsNil(bs[j].v) /\ \E i \in DOMAIN ps : ps[i].a = bs[j].a /\ LooseT(ps[i].t) = LooseT(TypeOfLit(As("literal", bs[j].v)))
(* two parameters of one anchor that disagree about the type: nothing is said about binding them *)
BindOpen(ps, bs) == \E j \in DOMAIN bs : \E i, k \in DOMAIN ps : ps[i].a = bs[j].a /\ ps[k].a = bs[j].a /\ LooseT(ps[i].t) # LooseT(ps[k].t)
PlanOk(pool, st) ==
    /\ st.h # 0
    /\ Len(st.names) = NFields(Struct0(SchemaR(pool[st.h])))
    /\ \A j \in DOMAIN st.others : st.others[j] # 0
PlanParams(pool, st) == ParamsIn(pool[st.h]) \o Flat([j \in DOMAIN st.others |-> ParamsIn(pool[st.others[j]])])
PlanRels(pool, st) == <<Msg("relations", <<Msg("root", <<As("input", pool[st.h])>> \o [j \in DOMAIN st.names |-> Sc("names", st.names[j])])>>)>>
    \o [j \in DOMAIN st.others |-> Msg("relations", <<As("rel", pool[st.others[j]])>>)]

(* ---- the aggregate builder: an input, measures, distinct expressions and grouping sets over them ---- *)
Cube(refs) == LET n == Len(refs) IN [k \in 1..(2 ^ n - 1) |-> SelectSeq([j \in 1..n |-> j], LAMBDA j : (k \div (2 ^ (j - 1))) % 2 = 1)]
CubeSets(refs) == LET c == Cube(refs) IN [k \in DOMAIN c |-> [i \in DOMAIN c[k] |-> refs[c[k][i]]]]
RollupSets(refs) == [j \in 1..Len(refs) |-> SubSeq(refs, 1, Len(refs) + 1 - j)]
ABState(h, ms) == [h |-> h, ms |-> ms, es |-> <<>>, sets |-> <<>>]
(* es: indices into the expressions of the history (0: none given) *)
ABStep(b, s) ==
    CASE s.a = "expr" -> IF s.i \in {b.es[j] : j \in DOMAIN b.es} THEN b ELSE [b EXCEPT !.es = Append(@, s.i)]
      [] s.a = "set" -> [b EXCEPT !.sets = Append(@, s.refs)]
      [] s.a = "cube" -> IF Len(s.refs) > 20 THEN b ELSE [b EXCEPT !.sets = @ \o CubeSets(s.refs)]
      [] s.a = "rollup" -> [b EXCEPT !.sets = @ \o RollupSets(s.refs)]
      [] s.a = "input" -> [b EXCEPT !.h = s.i]
      [] s.a = "clearm" -> [b EXCEPT !.ms = <<>>]
      [] s.a = "clearg" -> [b EXCEPT !.es = <<>>, !.sets = <<>>]
      [] OTHER -> b
ABBuild(b, pool, es) ==
    LET x == [j \in DOMAIN b.es |-> IF b.es[j] = 0 THEN NilNode ELSE es[b.es[j]]] IN
    IF b.h = 0 \/ ~AggOk(Struct0(Cols(pool, b.h)), x, b.sets, b.ms) THEN BErr ELSE Mk(AggTree(pool[b.h], x, b.sets, b.ms), <<>>)

(* ---- comparing: anchors of functions as the builder assigns them, relations inside subqueries normalised ---- *)
RECURSIVE Rn(_)
Rn(x) == IF x.k = "function_reference" THEN [x EXCEPT !.p = <<ToString(CHOOSE j \in DOMAIN FnDecls : ToString(FnDecls[j].a) = x.p[1])>>]
         ELSE IF x.c = <<>> THEN x ELSE [x EXCEPT !.c = [j \in DOMAIN @ |-> Rn(@[j])]]
SubRels == {"input", "haystack", "tuples", "right"}
(* the output mode of a write is not written (known finding): results get it back from what they should be; inside subqueries
   relations with writes are compared without it and without mappings *)
HasWrite(r) == \E j \in DOMAIN PreR(r) : Op(PreR(r)[j]).k = "write"
(* a write anywhere, subqueries included: what is written cannot be read back *)
RECURSIVE DeepWrite(_)
DeepWrite(x) == x.k = "write" \/ \E j \in DOMAIN x.c : DeepWrite(x.c[j])
RECURSIVE PutOut(_, _)
PutOut(w, x) ==
    LET a == IF Op(w).k = "write" /\ Op(x).k = "write" THEN [x EXCEPT !.c[1].c = SelectSeq(@, LAMBDA y : y.k # "output") \o Kids(Op(w), "output")] ELSE x IN
    IF InputsR(w) = <<>> \/ Len(InputsR(w)) # Len(InputsR(x)) THEN a ELSE WithInputs(a, [j \in DOMAIN InputsR(w) |-> PutOut(InputsR(w)[j], InputsR(x)[j])])
RECURSIVE NoEmits(_)
NoEmits(r) == WithEmit(IF InputsR(r) = <<>> THEN r ELSE WithInputs(r, [j \in DOMAIN InputsR(r) |-> NoEmits(InputsR(r)[j])]), <<>>)
NormW(r) == IF HasWrite(r) THEN NormR(NoEmits(r)) ELSE NormR(NormEmits(r))
RECURSIVE NX(_)
NX(x) == IF x.c = <<>> THEN x
         ELSE IF x.k \in {"scalar", "in_predicate", "set_predicate", "set_comparison"}
           THEN [x EXCEPT !.c = [j \in DOMAIN @ |-> IF @[j].k \in SubRels THEN As(@[j].k, NormW(NX(As("rel", @[j])))) ELSE NX(@[j])]]
         ELSE [x EXCEPT !.c = [j \in DOMAIN @ |-> NX(@[j])]]
NB(r) == NormR(NormEmits(NX(r)))
(* what was made against what was wanted *)
SameRel(got, want) == NB(IF HasWrite(want) THEN PutOut(want, got) ELSE got) = NB(want)
=============================================================================
