------------------------------ MODULE Literals ------------------------------
(* Literals. A literal is the tree of its message: the value field first, then nullable and type_variation_reference when
   set. TypeOfLit is the type a literal denotes; NormLit the form deprecated and redundant encodings are replaced by. *)
EXTENDS Types

LVal(l) == l.c[1]
LNul(l) == IF Has(l, "nullable") THEN "1" ELSE "2"
LVar(l) == Attr(l, "type_variation_reference", "0")
Lit(v, nul, var) == Msg("literal", <<v>> \o OptF(nul = "1", Sc("nullable", "true")) \o NZ("type_variation_reference", var, "0"))
PlainKind == ("boolean" :> "bool") @@ ("i8" :> "i8") @@ ("i16" :> "i16") @@ ("i32" :> "i32") @@ ("i64" :> "i64") @@ ("fp32" :> "fp32")
    @@ ("fp64" :> "fp64") @@ ("string" :> "string") @@ ("binary" :> "binary") @@ ("timestamp" :> "timestamp") @@ ("date" :> "date")
    @@ ("time" :> "time") @@ ("timestamp_tz" :> "timestamp_tz") @@ ("uuid" :> "uuid") @@ ("interval_year_to_month" :> "interval_year")
IdsPrec(i) == IF Has(i, "precision") THEN Attr(i, "precision", "") ELSE "6"     \* of an interval_day_to_second value

(* Texts with their number of characters; ~hex; is one character. *)
Texts == <<<<"", 0>>, <<"a", 1>>, <<"abc", 3>>, <<"~e9;", 1>>, <<"na~ef;ve", 5>>, <<"~4e2d;~6587;", 2>>, <<"~1f600;x", 2>>,
           <<"it's '' x", 9>>, <<"~7e;~a;", 2>>, <<"  ", 2>>>>
NChars(s) == LET j == CHOOSE j \in DOMAIN Texts : Texts[j][1] = s IN ToString(Texts[j][2])
NBytes(h) == ToString(Len(h) \div 2)

RECURSIVE TypeOfLit(_)
TypeOfParam(p) == LET f == p.c[1] IN     \* substrait.Type.Parameter -> parameter node
    CASE f.k = "null" -> Nd("P:null", <<>>, <<>>)
      [] f.k = "data_type" -> Nd("P:type", <<>>, <<NormT(f.c[1])>>)
      [] f.k = "boolean" -> Nd("P:bool", f.p, <<>>)
      [] f.k = "integer" -> Nd("P:int", f.p, <<>>)
      [] f.k = "enum" -> Nd("P:enum", f.p, <<>>)
      [] f.k = "string" -> Nd("P:string", f.p, <<>>)
TypeOfLit(l) ==
    LET v == LVal(l) n == LNul(l) r == LVar(l) IN
    CASE v.k \in DOMAIN PlainKind -> Nd(PlainKind[v.k], <<n, r>>, <<>>)
      [] v.k = "interval_day_to_second" -> Nd("interval_day", <<n, r, IdsPrec(v)>>, <<>>)
      [] v.k = "interval_compound" -> Nd("interval_compound", <<n, r,
            IF Has(v, "interval_day_to_second") THEN IdsPrec(Kid(v, "interval_day_to_second")) ELSE "0">>, <<>>)
      [] v.k = "fixed_char" -> Nd("fixed_char", <<n, r, NChars(v.p[1])>>, <<>>)
      [] v.k = "var_char" -> Nd("varchar", <<n, r, Attr(v, "length", "0")>>, <<>>)
      [] v.k = "fixed_binary" -> Nd("fixed_binary", <<n, r, NBytes(v.p[1])>>, <<>>)
      [] v.k = "decimal" -> Nd("decimal", <<n, r, Attr(v, "precision", "0"), Attr(v, "scale", "0")>>, <<>>)
      [] v.k \in {"precision_time", "precision_timestamp", "precision_timestamp_tz"} -> Nd(v.k, <<n, r, Attr(v, "precision", "0")>>, <<>>)
      [] v.k = "struct" -> Nd("struct", <<n, r>>, [j \in DOMAIN v.c |-> TypeOfLit(v.c[j])])
      [] v.k = "list" -> Nd("list", <<n, r>>, <<TypeOfLit(v.c[1])>>)
      [] v.k = "map" -> Nd("map", <<n, r>>, <<TypeOfLit(Kid(v.c[1], "key")), TypeOfLit(Kid(v.c[1], "value"))>>)
      [] v.k = "null" -> NormT(v.c[1])
      [] v.k = "empty_list" -> Nd("list", <<n, r>>, <<NormT(Kid(v, "type").c[1])>>)
      [] v.k = "empty_map" -> Nd("map", <<n, r>>, <<NormT(Kid(v, "key").c[1]), NormT(Kid(v, "value").c[1])>>)
      [] v.k = "user_defined" -> Nd("user_defined", <<n, r, Attr(v, "type_reference", "0")>>,
            LET ps == Kids(v, "type_parameters") IN [j \in DOMAIN ps |-> TypeOfParam(ps[j])])

(* Normal form. A null's own nullable flag and variation say nothing beyond its type; an empty collection states its
   nullability and variation twice; microseconds is the deprecated spelling of precision 6; zero parts of a compound
   interval may be absent. *)
NormIds(i) == IF ~Has(i, "microseconds") THEN i ELSE
    LET us == Attr(i, "microseconds", "0") IN
    [i EXCEPT !.c = Kids(i, "days") \o Kids(i, "seconds") \o <<Sc("precision", "6")>> \o NZ("subseconds", us, "0")]
RECURSIVE NormLit(_)
NormP(p) == IF p.c # <<>> /\ p.c[1].k = "data_type" THEN [p EXCEPT !.c[1].c[1] = NormT(@)] ELSE p
NormLit(l) ==
    LET v == LVal(l) n == LNul(l) r == LVar(l) IN
    CASE v.k = "null" -> LET t == NormT(v.c[1]) IN Rename(Lit([v EXCEPT !.c = <<t>>], "1", t.p[2]), l.k)
      [] v.k = "empty_list" -> Rename(Lit(Msg("empty_list", <<Msg("type", <<NormT(Kid(v, "type").c[1])>>)>>), n, r), l.k)
      [] v.k = "empty_map" -> Rename(Lit(Msg("empty_map", <<Msg("key", <<NormT(Kid(v, "key").c[1])>>), Msg("value", <<NormT(Kid(v, "value").c[1])>>)>>), n, r), l.k)
      [] v.k \in {"list"} -> [l EXCEPT !.c[1].c = [j \in DOMAIN v.c |-> NormLit(v.c[j])]]
      [] v.k = "struct" -> [l EXCEPT !.c[1].c = [j \in DOMAIN v.c |-> NormLit(v.c[j])]]
      [] v.k = "map" -> [l EXCEPT !.c[1].c = [j \in DOMAIN v.c |-> [v.c[j] EXCEPT !.c = <<NormLit(v.c[j].c[1]), NormLit(v.c[j].c[2])>>]]]
      [] v.k = "interval_day_to_second" -> [l EXCEPT !.c[1] = NormIds(v)]
      [] v.k = "interval_compound" -> [l EXCEPT !.c[1].c =
            LET ym == Kids(v, "interval_year_to_month") ds == Kids(v, "interval_day_to_second") IN
            SelectSeq(ym, LAMBDA x : x.c # <<>>) \o
            (IF ds = <<>> THEN <<>> ELSE LET d == NormIds(ds[1]) IN IF d.c \in {<<>>, <<Sc("precision", "0")>>} THEN <<>> ELSE <<d>>)]
      [] v.k = "user_defined" -> [l EXCEPT !.c[1].c = [j \in DOMAIN v.c |-> IF v.c[j].k = "type_parameters" THEN NormP(v.c[j]) ELSE
            IF v.c[j].k = "struct" THEN [v.c[j] EXCEPT !.c = [x \in DOMAIN v.c[j].c |-> NormLit(v.c[j].c[x])]] ELSE v.c[j]]]
      [] OTHER -> l
(* Nullability and variation inside an empty collection's type agree with the literal's own. *)
EmptyAgrees(l) == LET v == LVal(l) IN v.k \in {"empty_list", "empty_map"} =>
    /\ Attr(v, "nullability", "NULLABILITY_UNSPECIFIED") = (IF LNul(l) = "1" THEN "NULLABILITY_NULLABLE" ELSE "NULLABILITY_REQUIRED")
    /\ Attr(v, "type_variation_reference", "0") = LVar(l)

(* ---- grammar: a literal of a given type ---- *)
I8s == <<"0", "1", "-1", "127", "-128">>
I16s == <<"0", "-300", "32767", "-32768">>
I32s == <<"0", "5", "-5", "2147483647", "-2147483648">>
I64s == <<"0", "7", "-7", "9223372036854775807", "-9223372036854775808">>
Fps == <<"0", "1.5", "-2.25", "1e+20", "+Inf", "-Inf", "NaN">>
GHex(n) == JoinStr(TLCEval([j \in 1..n |-> Pick(<<"00", "01", "7f", "80", "ff", "a5">>)]), "")
GDecimal(x) == Pick(<<"00000000000000000000000000000000", "01000000000000000000000000000000", "ffffffffffffffffffffffffffffffff",
    "d2040000000000000000000000000000", "2efbffffffffffffffffffffffffffff", "ffffffffffffffffffffffffffffff7f", "00000000000000000000000000000080">>)
GI32(x) == Pick(I32s)
GIym(x) == Msg("interval_year_to_month", LET y == TLCEval(GI32(0)) m == TLCEval(GI32(0)) IN NZ("years", y, "0") \o NZ("months", m, "0"))
GIds(prec) == LET d == TLCEval(GI32(0)) s == TLCEval(GI32(0)) ss == TLCEval(Pick(<<"0", "0", "1", "-1", "999999">>)) us == TLCEval(prec = "6" /\ Chance(1, 3)) IN
    Msg("interval_day_to_second", NZ("days", d, "0") \o NZ("seconds", s, "0") \o
        (IF us THEN <<Sc("microseconds", ss)>> ELSE <<Sc("precision", prec)>> \o NZ("subseconds", ss, "0")))
EnumName(n) == CASE n = "0" -> "NULLABILITY_UNSPECIFIED" [] n = "1" -> "NULLABILITY_NULLABLE" [] n = "2" -> "NULLABILITY_REQUIRED"
ParamPb(p) == Msg("type_parameters", <<CASE p.k = "P:null" -> Msg("null", <<>>) [] p.k = "P:type" -> Msg("data_type", p.c)
    [] p.k = "P:bool" -> Sc("boolean", p.p[1]) [] p.k = "P:int" -> Sc("integer", p.p[1]) [] p.k = "P:enum" -> Sc("enum", p.p[1])
    [] p.k = "P:string" -> Sc("string", p.p[1])>>)
RECURSIVE GLitOf(_, _)
GValue(t, d) ==
    CASE t.k = "bool" -> Sc("boolean", Pick(<<"true", "false">>))
      [] t.k = "i8" -> Sc("i8", Pick(I8s))
      [] t.k = "i16" -> Sc("i16", Pick(I16s))
      [] t.k = "i32" -> Sc("i32", Pick(I32s))
      [] t.k \in {"i64", "timestamp", "timestamp_tz"} -> Sc(t.k, Pick(I64s))
      [] t.k = "time" -> Sc("time", Pick(<<"0", "1", "86399999999">>))
      [] t.k = "date" -> Sc("date", Pick(I32s))
      [] t.k \in {"fp32", "fp64"} -> Sc(t.k, Pick(Fps))
      [] t.k = "string" -> Sc("string", Pick(Texts)[1])
      [] t.k = "binary" -> Sc("binary", GHex(RE(0..4)))
      [] t.k = "uuid" -> Sc("uuid", GHex(16))
      [] t.k = "interval_year" -> GIym(0)
      [] t.k = "interval_day" -> IF t.p[3] = "6" /\ Chance(1, 8) THEN LET dd == TLCEval(GI32(0)) IN Msg("interval_day_to_second", NZ("days", dd, "0")) ELSE GIds(t.p[3])
      [] t.k = "interval_compound" -> LET ym == TLCEval(Chance(3, 4)) ds == TLCEval(t.p[3] # "0" \/ Chance(1, 2)) IN
            Msg("interval_compound", OptF(ym, GIym(0)) \o OptF(ds, GIds(t.p[3])))
      [] t.k = "fixed_char" -> LET x == SelectSeq(Texts, LAMBDA y : ToString(y[2]) = t.p[3]) IN Sc("fixed_char", Pick(x)[1])
      [] t.k = "varchar" -> LET s == TLCEval(Pick(Texts)[1]) IN Msg("var_char", NZ("value", s, "") \o NZ("length", t.p[3], "0"))
      [] t.k = "fixed_binary" -> Sc("fixed_binary", GHex(atoi(t.p[3])))
      [] t.k = "decimal" -> LET h == TLCEval(GDecimal(0)) IN Msg("decimal", <<Sc("value", h)>> \o NZ("precision", t.p[3], "0") \o NZ("scale", t.p[4], "0"))
      [] t.k = "precision_time" -> LET v == TLCEval(Pick(<<"0", "1", "86399">>)) IN Msg(t.k, NZ("precision", t.p[3], "0") \o NZ("value", v, "0"))
      [] t.k \in {"precision_timestamp", "precision_timestamp_tz"} -> LET v == TLCEval(Pick(I64s)) IN Msg(t.k, NZ("precision", t.p[3], "0") \o NZ("value", v, "0"))
      [] t.k = "struct" -> Msg("struct", TLCEval([j \in DOMAIN t.c |-> Rename(GLitOf(t.c[j], d - 1), "fields")]))
      [] t.k = "list" -> IF Chance(1, 5) THEN Msg("empty_list", <<Msg("type", <<t.c[1]>>)>> \o NZ("type_variation_reference", t.p[2], "0") \o <<Sc("nullability", EnumName(t.p[1]))>>)
            ELSE LET m == RE(1..3) IN Msg("list", TLCEval([j \in 1..m |-> Rename(GLitOf(t.c[1], d - 1), "values")]))
      [] t.k = "map" -> IF Chance(1, 5) THEN Msg("empty_map", <<Msg("key", <<t.c[1]>>), Msg("value", <<t.c[2]>>)>> \o NZ("type_variation_reference", t.p[2], "0") \o <<Sc("nullability", EnumName(t.p[1]))>>)
            ELSE LET m == RE(1..3) IN Msg("map", TLCEval([j \in 1..m |-> Msg("key_values", <<Rename(GLitOf(t.c[1], d - 1), "key"), Rename(GLitOf(t.c[2], d - 1), "value")>>)]))
      [] t.k = "user_defined" -> LET fs == TLCEval([j \in 1..RE(0..2) |-> Rename(GLitOf(GKind(Pick(<<"i32", "string">>), 0), 0), "fields")])
                                     any == TLCEval(Chance(1, 3)) hx == TLCEval(GHex(3)) IN
            Msg("user_defined", <<Sc("type_reference", t.p[3])>> \o
                OptF(any, Msg("value", <<Sc("type_url", "type.example/x"), Sc("value", hx)>>)) \o
                [j \in DOMAIN t.c |-> ParamPb(t.c[j])] \o
                OptF(~any, Msg("struct", fs)))
(* Null literals only for nullable types. *)
GLitOf(t, d) == IF t.p[1] = "1" /\ Chance(1, 6) THEN Lit(Msg("null", <<t>>), "1", t.p[2]) ELSE LET v == TLCEval(GValue(t, d)) IN Lit(v, t.p[1], t.p[2])

(* Types that literals can have; lists and maps are uniform. *)
LitKinds == Simple \o Prec \o Fixed \o <<"decimal", "struct", "list", "map", "user_defined">>
LN(x) == Pick(<<"1", "2">>)
RECURSIVE FixN(_)
FixN(t) == LET p == TLCEval(IF t.p[1] = "0" THEN [t.p EXCEPT ![1] = "2"] ELSE t.p)
               p2 == IF In(t.k, Fixed) /\ t.k # "varchar" THEN [p EXCEPT ![3] = Pick(<<"0", "1", "2", "3", "5">>)]
                     ELSE IF t.k = "interval_day" /\ p[3] = "" THEN [p EXCEPT ![3] = "6"]
                     ELSE IF t.k = "decimal" THEN [p EXCEPT ![4] = ToString(Min2(atoi(p[3]), atoi(p[4])))] ELSE p IN
    IF t.k = "user_defined" THEN [t EXCEPT !.p = p2] ELSE [t EXCEPT !.p = p2, !.c = TLCEval([j \in DOMAIN t.c |-> FixN(t.c[j])])]
RECURSIVE GLT(_, _)
GLT(k, d) ==
    LET m == IF k = "struct" THEN RE(0..3) ELSE IF k = "list" THEN 1 ELSE 2
        pk == IF d <= 1 THEN Simple \o Prec \o Fixed \o <<"decimal">> ELSE LitKinds IN
    IF k \in {"struct", "list", "map"} THEN Nd(k, <<LN(0), Pick(<<"0", "0", "3">>)>>, TLCEval([j \in 1..m |-> GLT(Pick(pk), d - 1)]))
    ELSE FixN(GKind(k, 1))
GLit(k, d) == LET t == TLCEval(GLT(k, d)) IN GLitOf(t, d)

(* ---- construction: the literal a constructor must build from a value ---- *)
NoVar(l) == Without(l, "type_variation_reference")
(* Constructors: "new" expr.NewLiteral, "expr" the expr.New* functions, "lit" the literal package. *)
CtorOk(c, l) == LET v == LVal(l) IN
    CASE c = "new" -> v.k \notin {"null", "empty_list", "empty_map", "interval_compound"}
      [] c = "expr" -> v.k \notin {"var_char", "decimal", "user_defined", "interval_day_to_second", "interval_compound"}
      [] c = "lit" -> v.k \notin {"null", "binary", "struct", "interval_compound"} /\ (v.k = "user_defined" => Has(v, "struct"))

(* ---- a literal as one of another type: the same value, where the type holds it ---- *)
ByteKs == {"binary", "fixed_binary", "uuid"}
SureKs == {"varchar", "fixed_char", "fixed_binary", "uuid", "list"}     \* decimals, times and intervals: see Numeric
Becomes(l, t) ==
    LET a == TypeOfLit(l) v == LVal(l) IN
    CASE t.k = "varchar" -> a.k = "varchar" /\ atoi(NChars(Attr(v, "value", ""))) <= atoi(t.p[3])
      [] t.k = "fixed_char" -> a.k = "fixed_char" /\ a.p[3] = t.p[3]
      [] t.k = "fixed_binary" -> a.k \in ByteKs /\ NBytes(v.p[1]) = t.p[3]
      [] t.k = "uuid" -> a.k \in ByteKs /\ NBytes(v.p[1]) = "16"
      [] t.k = "list" -> a.k = "list" /\ (v.k = "empty_list" \/ a.c = t.c)
      [] OTHER -> a.k = t.k
SameVal(x, l) == LET v == LVal(NormLit(l)) y == LVal(NormLit(x)) IN
    CASE v.k = "var_char" -> Attr(y, "value", "") = Attr(v, "value", "")
      [] v.k \in {"fixed_char", "binary", "fixed_binary", "uuid"} -> y.p = v.p
      [] v.k = "list" -> y.c = v.c
      [] OTHER -> TRUE
=============================================================================
