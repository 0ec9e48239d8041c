-------------------------------- MODULE Flaw --------------------------------
(* Well-formedness of messages. Every kind of message has parts it cannot do without (Need), lists that cannot be empty
   (Some), alternatives of which one must be taken (OneOf) and scalars with impossible values (BadSc). A message is ill-formed
   when it or any message below it is: Flaws lists the reasons. Points lists the places a well-formed message can be
   damaged in, Damage does it: every point is a flaw (the law of FlawGen). *)
EXTENDS Rels

OpKs == {Kinds[j] : j \in DOMAIN Kinds}
FnKs == {"scalar_function", "window_function", "aggfn"}
RexKs == {"literal", "selection", "scalar_function", "window_function", "if_then", "switch_expression", "singular_or_list", "multi_or_list", "cast", "nested", "lambda", "subquery", "dynamic_parameter"}
ExprFields == [filter |-> {"condition"}, read |-> {"filter", "best_effort_filter"}, project |-> {"expressions"}, join |-> {"expression", "post_join_filter"},
    hash_join |-> {"post_join_filter"}, merge_join |-> {"post_join_filter"}, aggregate |-> {"grouping_expressions"}]
LitMeta == {"nullable", "type_variation_reference"}
TimeKs == {"precision_time", "precision_timestamp", "precision_timestamp_tz"}
Precisions == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ReadKs == {"named_table", "virtual_table", "local_files", "extension_table", "iceberg_table"}

(* the kind of message the field f of a message n of kind k holds; "-" where nothing is required of it *)
KindOf(n, k, f) ==
    CASE k = "Plan" -> (CASE f = "relations" -> "PlanRel" [] f = "parameter_bindings" -> "Binding" [] OTHER -> "-")
      [] k = "PlanRel" -> (CASE f = "rel" -> "Rel" [] f = "root" -> "Root" [] OTHER -> "-")
      [] k = "Root" -> IF f = "input" THEN "Rel" ELSE "-"
      [] k = "Binding" -> IF f = "value" THEN "Lit" ELSE "-"
      [] k = "Refs" -> (CASE f = "expression" -> "Expr" [] f = "measure" -> "aggfn" [] OTHER -> "-")
      [] k = "Rel" -> IF f \in OpKs THEN f ELSE "-"
      [] k \in OpKs -> (CASE f \in InputKs -> "Rel"
            [] k \in DOMAIN ExprFields /\ f \in ExprFields[k] -> "Expr"
            [] k = "sort" /\ f = "sorts" -> "Sort"
            [] k = "aggregate" /\ f = "groupings" -> (IF Has(n, "grouping_expressions") THEN "SetRefs" ELSE "SetExprs")
            [] k = "aggregate" /\ f = "measures" -> "Measure"
            [] k \in {"hash_join", "merge_join"} /\ f = "keys" -> "Key"
            [] k \in {"hash_join", "merge_join"} /\ f \in {"left_keys", "right_keys"} /\ ~Has(n, "keys") -> "FieldRef"
            [] k = "read" /\ f = "virtual_table" -> "VT"
            [] k = "read" /\ f = "iceberg_table" -> "Iceberg"
            [] k = "read" /\ f = "projection" -> "Mask"
            [] k # "write" /\ f = "common" -> "Common"
            [] OTHER -> "-")
      [] k = "Common" -> IF f = "emit" THEN "Emit" ELSE "-"
      [] k = "SetExprs" -> IF f = "grouping_expressions" THEN "Expr" ELSE "-"
      [] k = "Measure" -> (CASE f = "measure" -> "aggfn" [] f = "filter" -> "Expr" [] OTHER -> "-")
      [] k = "Key" -> (CASE f \in {"left", "right"} -> "FieldRef" [] f = "comparison" -> "Comparison" [] OTHER -> "-")
      [] k = "VT" -> (CASE f = "values" -> "VRow" [] f = "expressions" -> "ERow" [] OTHER -> "-")
      [] k = "VRow" -> IF f = "fields" THEN "Lit" ELSE "-"
      [] k \in {"ERow", "NStruct", "Row"} -> IF f = "fields" THEN "Expr" ELSE "-"
      [] k = "Sort" -> IF f = "expr" THEN "Expr" ELSE "-"
      [] k \in FnKs -> (CASE f = "arguments" -> "Arg" [] f = "sorts" -> "Sort" [] f = "partitions" -> "Expr" [] OTHER -> "-")
      [] k = "Arg" -> IF f = "value" THEN "Expr" ELSE "-"
      [] k = "Expr" -> (CASE f = "literal" -> "Lit" [] f = "selection" -> "FieldRef" [] f \in RexKs -> f [] OTHER -> "-")
      [] k = "if_then" -> (CASE f = "ifs" -> "Clause" [] f = "else" -> "Expr" [] OTHER -> "-")
      [] k = "Clause" -> IF f \in {"if", "then"} THEN "Expr" ELSE "-"
      [] k = "switch_expression" -> (CASE f = "ifs" -> "Case" [] f \in {"else", "match"} -> "Expr" [] OTHER -> "-")
      [] k = "Case" -> (CASE f = "if" -> "Lit" [] f = "then" -> "Expr" [] OTHER -> "-")
      [] k = "singular_or_list" -> IF f \in {"value", "options"} THEN "Expr" ELSE "-"
      [] k = "multi_or_list" -> (CASE f = "value" -> "Expr" [] f = "options" -> "Row" [] OTHER -> "-")
      [] k = "cast" -> IF f = "input" THEN "Expr" ELSE "-"
      [] k = "nested" -> (CASE f = "struct" -> "NStruct" [] f = "list" -> "NList" [] f = "map" -> "NMap" [] OTHER -> "-")
      [] k = "NList" -> IF f = "values" THEN "Expr" ELSE "-"
      [] k = "NMap" -> IF f = "key_values" THEN "KV" ELSE "-"
      [] k = "KV" -> IF f \in {"key", "value"} THEN "Expr" ELSE "-"
      [] k = "lambda" -> (CASE f = "body" -> "Expr" [] f = "parameters" -> "Params" [] OTHER -> "-")
      [] k = "subquery" -> (CASE f = "scalar" -> "Scalar" [] f = "in_predicate" -> "In" [] f = "set_predicate" -> "SetPred" [] f = "set_comparison" -> "SetCmp" [] OTHER -> "-")
      [] k = "Scalar" -> IF f = "input" THEN "Rel" ELSE "-"
      [] k = "In" -> (CASE f = "needles" -> "Expr" [] f = "haystack" -> "Rel" [] OTHER -> "-")
      [] k = "SetPred" -> IF f = "tuples" THEN "Rel" ELSE "-"
      [] k = "SetCmp" -> (CASE f = "left" -> "Expr" [] f = "right" -> "Rel" [] OTHER -> "-")
      [] k = "FieldRef" -> (CASE f = "direct_reference" -> (IF Has(n, "root_reference") \/ Has(n, "expression") THEN "Seg" ELSE "FreeSeg")
            [] f = "masked_reference" -> "Mask" [] f = "expression" -> "Expr" [] OTHER -> "-")
      [] k = "Seg" -> (CASE f = "struct_field" -> "SField" [] f = "list_element" -> "SElem" [] f = "map_key" -> "SKey" [] OTHER -> "-")
      [] k \in {"SField", "SElem"} -> IF f = "child" THEN "Seg" ELSE "-"
      [] k = "SKey" -> (CASE f = "child" -> "Seg" [] f = "map_key" -> "Lit" [] OTHER -> "-")
      \* a segment whose root's type is not known: a field of it may have any number
      [] k = "FreeSeg" -> (CASE f = "struct_field" -> "FField" [] f = "list_element" -> "FElem" [] f = "map_key" -> "FKey" [] OTHER -> "-")
      [] k \in {"FField", "FElem"} -> IF f = "child" THEN "FreeSeg" ELSE "-"
      [] k = "FKey" -> (CASE f = "child" -> "FreeSeg" [] f = "map_key" -> "Lit" [] OTHER -> "-")
      [] k = "Mask" -> IF f = "select" THEN "MaskStruct" ELSE "-"
      [] k = "MaskStruct" -> IF f = "struct_items" THEN "MaskItem" ELSE "-"
      [] k = "MaskItem" -> IF f = "child" THEN "Select" ELSE "-"
      [] k = "Select" -> (CASE f = "struct" -> "MaskStruct" [] f = "list" -> "MaskList" [] f = "map" -> "MaskMap" [] OTHER -> "-")
      [] k = "MaskList" -> (CASE f = "selection" -> "ListItem" [] f = "child" -> "Select" [] OTHER -> "-")
      [] k = "MaskMap" -> IF f = "child" THEN "Select" ELSE "-"
      [] k = "Lit" -> (CASE f = "struct" -> "LStruct" [] f = "list" -> "LList" [] f = "map" -> "LMap" [] f = "user_defined" -> "LUser" [] f \in {"empty_list", "empty_map", "decimal", "interval_day_to_second"} \cup TimeKs -> f [] OTHER -> "-")
      [] k = "LStruct" -> IF f = "fields" THEN "Lit" ELSE "-"
      [] k = "LList" -> IF f = "values" THEN "Lit" ELSE "-"
      [] k = "LMap" -> IF f = "key_values" THEN "LKV" ELSE "-"
      [] k = "LKV" -> IF f \in {"key", "value"} THEN "Lit" ELSE "-"
      [] k = "LUser" -> (CASE f = "struct" -> "LStruct" [] f = "type_parameters" -> "TParam" [] OTHER -> "-")
      [] OTHER -> "-"
Need(k) ==
    CASE k = "Root" -> {"input"} [] k = "Binding" -> {"value"}
      [] k = "filter" -> {"input", "condition"} [] k \in {"project", "aggregate", "sort", "extension_single", "write"} -> {"input"}
      [] k = "fetch" -> {"input", "offset", "count"} [] k = "join" -> {"left", "right", "expression"} [] k \in {"cross", "hash_join", "merge_join"} -> {"left", "right"}
      [] k = "Iceberg" -> {"direct"} [] k = "Measure" -> {"measure"} [] k = "Key" -> {"left", "right", "comparison"}
      [] k = "Sort" -> {"expr"} [] k \in FnKs -> {"output_type"}
      [] k = "if_then" -> {"else"} [] k \in {"Clause", "Case"} -> {"if", "then"} [] k = "switch_expression" -> {"match"}
      [] k = "singular_or_list" -> {"value"} [] k = "cast" -> {"type", "input"} [] k = "dynamic_parameter" -> {"type"} [] k = "KV" -> {"key", "value"}
      [] k = "lambda" -> {"parameters", "body"} [] k = "Scalar" -> {"input"} [] k = "In" -> {"haystack"} [] k = "SetPred" -> {"tuples"} [] k = "SetCmp" -> {"left", "right"}
      [] k \in {"SKey", "FKey"} -> {"map_key"} [] k = "Mask" -> {"select"} [] k = "LKV" -> {"key", "value"} [] k = "empty_list" -> {"type"} [] k = "empty_map" -> {"key", "value"}
      [] OTHER -> {}
Some(k) == CASE k = "project" -> {"expressions"} [] k = "sort" -> {"sorts"} [] k = "switch_expression" -> {"ifs"} [] k = "NList" -> {"values"} [] k = "NMap" -> {"key_values"}
      [] k = "LList" -> {"values"} [] k = "LMap" -> {"key_values"} [] OTHER -> {}
OneOf(k) == CASE k = "PlanRel" -> {"rel", "root"} [] k = "Refs" -> {"expression", "measure"} [] k = "Rel" -> OpKs [] k = "read" -> ReadKs [] k = "write" -> {"named_table"}
      [] k = "Comparison" -> {"simple", "custom_function_reference"} [] k = "Sort" -> {"direction", "comparison_function_reference"} [] k = "Arg" -> {"enum", "type", "value"}
      [] k = "Expr" -> RexKs [] k = "nested" -> {"struct", "list", "map"} [] k = "subquery" -> {"scalar", "in_predicate", "set_predicate", "set_comparison"}
      [] k = "FieldRef" -> {"direct_reference", "masked_reference"} [] k \in {"Seg", "FreeSeg"} -> {"struct_field", "list_element", "map_key"} [] k = "Select" -> {"struct", "list", "map"}
      [] k = "ListItem" -> {"item", "slice"} [] k = "LUser" -> {"value", "struct"} [] OTHER -> {}
(* scalars that cannot be: field, value, when *)
Decl(a) == \E j \in DOMAIN FnDecls : ToString(FnDecls[j].a) = a
Far(v) == v = "-1" \/ (Len(v) >= 2 /\ v \notin {"10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39"})
BadSc(n, k) ==
    CASE k \in FnKs -> ~Decl(Attr(n, "function_reference", "0"))
      [] k = "Emit" -> \E j \in DOMAIN n.c : Far(n.c[j].p[1])
      [] k = "SetRefs" -> \E j \in DOMAIN n.c : n.c[j].k = "expression_references" /\ Far(n.c[j].p[1])
      [] k = "SField" -> Far(Attr(n, "field", "0"))
      [] k = "join" -> Attr(n, "type", "JOIN_TYPE_UNSPECIFIED") = "JOIN_TYPE_UNSPECIFIED"
      [] k = "set" -> Attr(n, "op", "SET_OP_UNSPECIFIED") = "SET_OP_UNSPECIFIED"
      [] k = "write" -> Attr(n, "op", "WRITE_OP_UNSPECIFIED") \notin {"WRITE_OP_INSERT", "WRITE_OP_DELETE", "WRITE_OP_CTAS"}
      [] k = "Params" -> Attr(n, "nullability", "-") # "NULLABILITY_REQUIRED"
      [] k = "decimal" -> Len(Attr(n, "value", "")) # 32      \* sixteen bytes
      [] k \in TimeKs -> Attr(n, "precision", "0") \notin Precisions \/ (k = "precision_time" /\ SubSeq(Attr(n, "value", "0"), 1, 1) = "-")
      [] k = "interval_day_to_second" -> Attr(n, "precision", "0") \notin Precisions
      [] OTHER -> FALSE
Plainly(r) == Has(r, "read") /\ ~HasEmit(Kid(r, "read")) /\ Has(Kid(r, "read"), "base_schema") /\ Has(Kid(Kid(r, "read"), "base_schema"), "struct")
Wider(r) == Msg("inputs", <<Msg("project", <<As("input", r), Msg("expressions", <<Msg("literal", <<Sc("boolean", "true")>>)>>)>>)>>)     \* one column more
(* as many columns, of which the first has another type (of a plain read) *)
ReadTs(r) == Kids(Kid(Kid(Kid(r, "read"), "base_schema"), "struct"), "types")
Retypable(r) == Plainly(r) /\ ~Has(Kid(r, "read"), "projection") /\ ReadTs(r) # <<>>
Retyped(r) == LET ts == ReadTs(r) lit == IF ts[1].c[1].k = "bool" THEN Sc("i32", "5") ELSE Sc("boolean", "true") IN
    Msg("inputs", <<Msg("project", <<Msg("common", <<MkEmit(<<Len(ts)>> \o [j \in 1..(Len(ts) - 1) |-> j])>>), As("input", r), Msg("expressions", <<Msg("literal", <<lit>>)>>)>>)>>)
Other1(n, k) ==     \* the rest
    CASE k = "set" -> LET in == Kids(n, "inputs") IN Len(in) < 2 \/ \E j \in 2..Len(in) : in[j] = Wider(in[1]) \/ (Retypable(in[1]) /\ in[j] = Retyped(in[1]))
      [] k \in {"hash_join", "merge_join"} -> ~Has(n, "keys") /\ Len(Kids(n, "left_keys")) # Len(Kids(n, "right_keys"))
      [] k = "Scalar" -> Has(n, "input") /\ Plainly(Kid(n, "input")) /\ Len(Kids(Kid(Kid(Kid(Kid(n, "input"), "read"), "base_schema"), "struct"), "types")) # 1
      [] k = "Lit" -> \A j \in DOMAIN n.c : n.c[j].k \in LitMeta
      [] k = "TParam" -> n.c = <<>>
      [] OTHER -> FALSE
(* inside the rows of a virtual table there are no columns to refer to: what a reference there says is open *)
Loosen(k, vt) == IF vt /\ k = "Seg" THEN "FreeSeg" ELSE k
Vt(k, vt) == IF k = "VT" THEN TRUE ELSE IF k = "Rel" THEN FALSE ELSE vt
Here(n, k) ==
    [j \in 1..Cardinality({f \in Need(k) : ~Has(n, f)}) |-> k \o ".missing"]
    \o OptF(\E f \in Some(k) : ~Has(n, f), k \o ".none") \o OptF(OneOf(k) # {} /\ \A f \in OneOf(k) : ~Has(n, f), k \o ".alternative")
    \o OptF(BadSc(n, k), k \o ".value") \o OptF(Other1(n, k), k \o ".shape")
RECURSIVE Flaws(_, _, _)
Flaws(n, k, vt) == Here(n, k) \o Flat([j \in DOMAIN n.c |-> LET ck == Loosen(KindOf(n, k, n.c[j].k), vt) IN IF ck = "-" THEN <<>> ELSE Flaws(n.c[j], ck, Vt(ck, vt))])

(* ---- nothing at all is required of a tree with a relation whose own columns are not known ---- *)
OpenOp(x) == CASE x.k \in {"extension_single", "extension_multi", "extension_leaf"} -> ~Has(x, "detail") \/ Detail(x) \notin {"vh/two", "vh/cat", "vh/par"}
               [] x.k = "write" -> ~Has(x, "output")
               [] x.k = "aggregate" -> \E j \in DOMAIN Kids(x, "grouping_expressions") : LET gs == Kids(x, "groupings") IN
                    \A i \in DOMAIN gs : \A h \in DOMAIN gs[i].c : gs[i].c[h] # Sc("expression_references", ToString(j - 1))
               [] OTHER -> FALSE
RECURSIVE OpenTree(_)
OpenTree(n) == OpenOp(n) \/ \E j \in DOMAIN n.c : OpenTree(n.c[j])
(* the type of references to outer queries, lambda parameters, masks and unnamed roots is not known (documented TODO) *)
RECURSIVE LooseRef(_)
LooseRef(n) == (n.k \in {"outer_reference", "lambda_parameter_reference", "masked_reference", "projection"}) \/ (n.k \in {"selection", "left", "right", "left_keys", "right_keys"} /\ Has(n, "direct_reference") /\ ~Has(n, "root_reference") /\ ~Has(n, "expression"))
    \/ \E j \in DOMAIN n.c : LooseRef(n.c[j])

(* ---- damage ---- *)
IsType(n) == n.c # <<>> /\ Len(n.c[1].p) >= 2
Del(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
DoHere(n, act, arg) ==
    CASE act = "drop" -> [n EXCEPT !.c = Del(@, arg)]
      [] act = "dropall" -> [n EXCEPT !.c = SelectSeq(@, LAMBDA x : x.k # arg)]
      [] act = "empty" -> [n EXCEPT !.c[arg].c = <<>>]
      [] act = "dup" -> [n EXCEPT !.c = SubSeq(@, 1, arg) \o SubSeq(@, arg, Len(@))]
      [] act = "set" -> [n EXCEPT !.c = SelectSeq(@, LAMBDA x : x.k # arg[1]) \o <<Sc(arg[1], arg[2])>>]
      [] act = "retype" -> [n EXCEPT !.c[arg] = Retyped(Kids(n, "inputs")[1])]
      [] act = "widen" -> [n EXCEPT !.c[arg] = Wider(Kids(n, "inputs")[1])]
      [] act = "one" -> [n EXCEPT !.c = <<Msg(arg, <<>>)>>]
RECURSIVE Damage(_, _, _, _)
Damage(n, path, act, arg) == IF path = <<>> THEN DoHere(n, act, arg) ELSE [n EXCEPT !.c[Head(path)] = Damage(n.c[Head(path)], Tail(path), act, arg)]
Absent(k, f) == k = "fetch" /\ f \in {"offset", "count"}
Pt(k, f, act, arg) == [path |-> <<>>, act |-> act, arg |-> arg, key |-> k \o "." \o f \o "." \o act]
SortedSet(S) == SetToSeq(S)
UnsupportedOps == {"reference", "ddl", "update", "exchange", "expand", "nested_loop_join", "window"}
Local(n, k) ==
    LET kid(j) == n.c[j]
        \* a message of this kind with nothing in it is a flaw
        hollow(ck) == ck # "-" /\ Here(Msg("x", <<>>), ck) # <<>> IN
       Flat([j \in DOMAIN n.c |-> OptF(kid(j).k \in Need(k), Pt(k, kid(j).k, "drop", j))
            \o OptF(kid(j).p = <<>> /\ kid(j).c # <<>> /\ ~IsType(kid(j)) /\ hollow(KindOf(n, k, kid(j).k)), Pt(k, kid(j).k, "empty", j))
            \o OptF(kid(j).k \in OneOf(k) /\ Cardinality({i \in DOMAIN n.c : n.c[i].k \in OneOf(k)}) = 1, Pt(k, IF k \in {"Rel", "Expr"} THEN "alt" ELSE kid(j).k, "drop", j))
            \o OptF(k = "Lit" /\ kid(j).k \notin LitMeta, Pt(k, "alt", "drop", j))
            \o OptF(k = "set" /\ Len(Kids(n, "inputs")) = 2 /\ kid(j).k = "inputs", Pt(k, "inputs", "drop", j))
            \o OptF(k = "set" /\ kid(j).k = "inputs" /\ j > 1 /\ n.c[j - 1].k = "inputs", Pt(k, "inputs", "widen", j))
            \o OptF(k = "set" /\ kid(j).k = "inputs" /\ j > 1 /\ n.c[j - 1].k = "inputs" /\ Retypable(Kids(n, "inputs")[1]), Pt(k, "inputs", "retype", j))
            \o OptF(k \in {"hash_join", "merge_join"} /\ ~Has(n, "keys") /\ kid(j).k \in {"left_keys", "right_keys"}, Pt(k, kid(j).k, "drop", j))])
    \o Flat([j \in DOMAIN SortedSet(Some(k)) |-> <<Pt(k, SortedSet(Some(k))[j], "dropall", SortedSet(Some(k))[j])>>])
    \o OptF(k \in FnKs, Pt(k, "function_reference", "set", <<"function_reference", "4000">>))
    \o OptF(k = "SField", Pt(k, "field", "set", <<"field", "99">>)) \o OptF(k = "SField", Pt(k, "field", "set", <<"field", "-1">>))
    \o OptF(k = "Emit", Pt(k, "mapping", "set", <<"output_mapping", Pick(<<"99", "-1", "2147483647">>)>>))
    \o OptF(k = "SetRefs", Pt(k, "reference", "set", <<"expression_references", Pick(<<"99", "4294967295", "2147483648">>)>>))
    \o OptF(k = "join", Pt(k, "type", "dropall", "type")) \o OptF(k = "set", Pt(k, "op", "dropall", "op"))
    \o OptF(k = "write", Pt(k, "op", "set", <<"op", Pick(<<"WRITE_OP_UNSPECIFIED", "WRITE_OP_UPDATE">>)>>))
    \o OptF(k = "Params", Pt(k, "nullability", "set", <<"nullability", Pick(<<"NULLABILITY_NULLABLE", "NULLABILITY_UNSPECIFIED">>)>>))
    \o OptF(k = "decimal", Pt(k, "value", "set", <<"value", Pick(<<"00", "000000000000000000000000000000", "0000000000000000000000000000000000">>)>>))
    \o OptF(k \in TimeKs, Pt(k, "precision", "set", <<"precision", Pick(<<"10", "-1", "2147483647">>)>>)) \o OptF(k = "precision_time", Pt(k, "value", "set", <<"value", "-1">>))
    \o OptF(k = "interval_day_to_second" /\ Has(n, "precision"), Pt(k, "precision", "set", <<"precision", Pick(<<"10", "-1">>)>>))
    \o OptF(k = "Rel", Pt(k, "unsupported", "one", Pick(SetToSeq(UnsupportedOps))))
    \o OptF(k = "Expr", Pt(k, "unsupported", "one", "enum"))
RECURSIVE Points(_, _, _)
Points(n, k, vt) == Local(n, k) \o Flat([j \in DOMAIN n.c |-> LET ck == Loosen(KindOf(n, k, n.c[j].k), vt) IN
    IF ck = "-" THEN <<>> ELSE LET r == Points(n.c[j], ck, Vt(ck, vt)) IN [i \in DOMAIN r |-> [r[i] EXCEPT !.path = <<j>> \o @]]])
(* anything anywhere: drop a part, hollow a message out, say something twice *)
RECURSIVE AnyPoint(_)
AnyPoint(n) == LET j == TLCEval(RE(DOMAIN n.c)) x == n.c[j] w == TLCEval(RE(1..8)) IN
    IF w <= 5 /\ x.c # <<>> /\ ~IsType(x) THEN LET r == TLCEval(AnyPoint(x)) IN [r EXCEPT !.path = <<j>> \o @]
    ELSE IF w = 6 /\ x.p = <<>> /\ ~IsType(x) THEN [path |-> <<>>, act |-> "empty", arg |-> j, key |-> n.k \o "." \o x.k \o ".empty"]
    ELSE IF w = 7 /\ x.k \in {"expressions", "sorts", "fields", "values", "inputs", "measures", "keys", "left_keys", "groupings", "arguments", "types", "relations", "needles", "ifs", "options", "key_values", "output_mapping", "names"}
      THEN [path |-> <<>>, act |-> "dup", arg |-> j, key |-> n.k \o "." \o x.k \o ".dup"]
    ELSE [path |-> <<>>, act |-> "drop", arg |-> j, key |-> n.k \o "." \o x.k \o ".drop"]
=============================================================================
