------------------------------ MODULE DialectGen ------------------------------
EXTENDS Dialect
VARIABLES n, sc
U1 == "extension:a:one"
U2 == "extension:b:two"
FNames == <<"f", "g", "add">>
S(k) == Nd(k, <<"2">>, <<>>)
ArgPool == <<S("i32"), S("i32"), S("i32"), S("i64"), S("string"), S("timestamp"), S("fp64"), S("interval_year"), S("bool"),
    Nd("decimal", <<"2">>, <<Var("P"), Var("S")>>), Nd("varchar", <<"2">>, <<Var("L1")>>), Nd("precision_timestamp", <<"2">>, <<Var("P")>>),
    Nd("interval_day", <<"2">>, <<Var("P")>>), Nd("any", <<"2", "any1">>, <<>>), Nd("any", <<"2", "any">>, <<>>),
    Nd("list", <<"2">>, <<S("i32")>>), Nd("map", <<"2">>, <<S("i32"), S("i64")>>), Nd("struct", <<"2">>, <<S("i32")>>), Nd("udt", <<"2", "point">>, <<>>), Nd("udt", <<"2", "my_point">>, <<>>)>>
GDArg(few) == LET w == RE(1..14) IN
    IF few /\ w < 14 THEN Nd("value", <<"", "", "false">>, <<ArgPool[RE(1..5)]>>)
    ELSE CASE w = 1 -> Nd("enum", <<"", "", "A", "B">>, <<>>)
           [] OTHER -> Nd("value", <<"", "", "false">>, <<Pick(ArgPool)>>)
GDImpl(kind) == LET m == RE(0..2) few == Chance(2, 3) as == TLCEval([j \in 1..m |-> GDArg(few)]) IN
    [args |-> as, opts |-> << <<"overflow", "", "SILENT", "ERROR">> >>,
     var |-> IF m = 0 \/ Chance(2, 3) THEN <<>> ELSE <<RE(0..2), Pick(<<0, 3>>), "CONSISTENT">>,
     null |-> "", ret |-> S("i64"), sess |-> "", det |-> "", ordered |-> "", maxset |-> "", decomp |-> "", inter |-> IF kind = "scalar" THEN NilNode ELSE S("i64"), wt |-> ""]
GDFn(x) == LET k == Pick(<<"scalar", "scalar", "aggregate", "aggregate", "window">>) m == RE(1..3) IN
    [kind |-> k, name |-> Pick(FNames), desc |-> "", meta |-> "", impls |-> TLCEval([j \in 1..m |-> GDImpl(k)])]
DedupIm(name, ims, seen) == FoldLeft(LAMBDA a, im : IF Compound(name, im) \in seen \/ \E j \in DOMAIN a : Compound(name, a[j]) = Compound(name, im) THEN a ELSE Append(a, im), <<>>, ims)
DedupFns(fns) == FoldLeft(LAMBDA a, fn : LET seen == UNION {{Compound(a[j].name, a[j].impls[k]) : k \in DOMAIN a[j].impls} : j \in {j \in DOMAIN a : a[j].kind = fn.kind}}
                                            ims == DedupIm(fn.name, fn.impls, seen)
                                        IN IF ims = <<>> THEN a ELSE Append(a, [fn EXCEPT !.impls = ims]), <<>>, fns)
GDFile(u) == LET m == TLCEval(RE(1..4)) IN
    [urn |-> u, urnok |-> TRUE, meta |-> "", deps |-> <<>>, vars |-> <<>>, bad |-> "",
     types |-> <<[name |-> "point", params |-> <<>>, variadic |-> "false", structure |-> ""], [name |-> "my_point", params |-> <<>>, variadic |-> "false", structure |-> ""]>>,
     fns |-> DedupFns(TLCEval([j \in 1..m |-> GDFn(j)]))]
GColl(x) == LET a == TLCEval(GDFile(U1)) b == TLCEval(GDFile(U2)) IN <<a, b>>
(* ---- the dialect: some of the collection's implementations, sometimes one that is not there ---- *)
Locals == <<"", "", "f", "g", "add", "+", "LOCAL">>
GOpts(x) == Pick(<< <<>>, <<>>, <<<<"overflow", "ERROR">>>>, <<<<"overflow", "SILENT">>, <<"rounding", "ERROR">>>> >>)
KText(sig) == sig
AnyText(sig) == Pick(<<sig, sig \o "1">>)
SigOf(e) == SubSeq(e.compound, Len(e.name) + 2, Len(e.compound))
(* a trailing "any" may be written with its number *)
Kernel(e) == LET s == SigOf(e) IN <<IF Len(s) >= 3 /\ SubSeq(s, Len(s) - 2, Len(s)) = "any" /\ Chance(1, 2) THEN s \o "1" ELSE s, s>>
Alias(u) == IF u = U1 THEN "one" ELSE IF u = U2 THEN "two" ELSE "gone"
GEntryFn(e) == [kind |-> e.kind, dep |-> Alias(e.urn), name |-> e.name, local |-> Pick(Locals), notation |-> Pick(<<"prefix", "infix", "postfix">>), opts |-> GOpts(0), kernels |-> <<Kernel(e)>>]
SameHead(a, b) == a.kind = b.kind /\ a.dep = b.dep /\ a.name = b.name
\* the next implementation is listed with an earlier one of its function, or on its own
AddEntry(fs, e) == LET g == TLCEval(GEntryFn(e)) js == {j \in DOMAIN fs : SameHead(fs[j], g)} IN
    IF js # {} /\ Chance(1, 2) THEN LET j == CHOOSE j \in js : TRUE IN [fs EXCEPT ![j].kernels = Append(@, g.kernels[1])] ELSE Append(fs, g)
Shuffle(s) == SetToSeq(ToSet(s))
GPick(ents, a, b) == SelectSeq([j \in DOMAIN ents |-> <<Chance(a, b), ents[j]>>], LAMBDA x : x[1])
DTypes(x) == LET m == RE(2..Len(TypeNames)) one == RE(DOMAIN TypeNames)
                 ks == TLCEval([j \in DOMAIN TypeNames |-> j = one \/ Chance(m, Len(TypeNames))])
                 js == TLCEval(SelectSeq([j \in DOMAIN TypeNames |-> j], LAMBDA j : ks[j]))
                 sqlOf(j) == CASE TypeNames[j][3] \in {"i8", "i16", "i32"} -> Pick(<<"INTEGER", "INT" \o TypeNames[j][1]>>)
                               [] TypeNames[j][3] \in {"string", "varchar", "fixed_char"} -> Pick(<<"VARCHAR", "CHAR", "TEXT" \o TypeNames[j][2]>>)
                               [] TypeNames[j][3] \in {"interval_year", "interval_day"} -> Pick(<<"INTERVAL", "INTERVAL " \o TypeNames[j][1]>>)
                               [] TypeNames[j][3] \in {"timestamp", "timestamp_tz"} -> Pick(<<"TIMESTAMP(6)", "TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "T?">>)
                               [] TypeNames[j][3] \in {"precision_timestamp", "precision_time", "decimal"} -> Pick(<<"TIMESTAMP", "NUMERIC", "P" \o TypeNames[j][2]>>)
                               [] OTHER -> Pick(<<"T_" \o TypeNames[j][2], "DOUBLE " \o TypeNames[j][2]>>)
             IN TLCEval([x2 \in DOMAIN js |-> [key |-> TypeNames[js[x2]][RE(1..2)], kind |-> TypeNames[js[x2]][3], sql |-> sqlOf(js[x2]), col |-> Pick(<<"", "true", "false">>)]])
Absent(c, x) == LET e == TLCEval(IF Len(All(c)) = 0 THEN [kind |-> "scalar", urn |-> U1, name |-> "f", compound |-> "f:i32"] ELSE Pick(All(c)))
                    w == RE(1..4) IN
    CASE w = 1 -> [e EXCEPT !.kind = Pick(Kinds)]
      [] w = 2 -> [e EXCEPT !.urn = Pick(<<U1, U2, "extension:gone:x">>)]
      [] w = 3 -> LET nm == Pick(FNames \o <<"ghost">>) IN [e EXCEPT !.name = nm, !.compound = nm \o ":" \o SigOf(e)]
      [] OTHER -> [e EXCEPT !.compound = e.name \o ":" \o Pick(<<"", "i8", "i32_i8", "str_str">>)]
UniqE(s) == FoldLeft(LAMBDA a, e : IF \E j \in DOMAIN a : a[j].kind = e.kind /\ a[j].urn = e.urn /\ a[j].compound = e.compound THEN a ELSE Append(a, e), <<>>, s)
GDialect(c) ==
    LET all == TLCEval(All(c)) m == TLCEval(RE(1..4))
        pk == TLCEval([j \in DOMAIN all |-> Chance(m, 4)])
        some == TLCEval(Flat([j \in DOMAIN all |-> IF pk[j] THEN <<all[j]>> ELSE <<>>]))
        e1 == TLCEval(IF some = <<>> THEN IF all = <<>> THEN <<Absent(c, 0)>> ELSE <<all[1]>> ELSE some) ab == TLCEval(IF Chance(1, 6) THEN <<Absent(c, 0)>> ELSE <<>>) at == RE(0..Len(e1))
        ents == TLCEval(UniqE(SubSeq(e1, 1, at) \o ab \o SubSeq(e1, at + 1, Len(e1))))
        fs == TLCEval(FoldLeft(LAMBDA a, e : AddEntry(a, e), <<>>, ents))
        ty == TLCEval(DTypes(0))
    IN [deps |-> <<<<"one", U1>>, <<"two", U2>>>> \o (IF \E j \in DOMAIN fs : fs[j].dep = "gone" THEN <<<<"gone", "extension:gone:x">>>> ELSE <<>>),
        types |-> (IF Chance(1, 20) THEN Append(ty, [key |-> Pick(<<"myth", "INT", "i128", "i32?">>), kind |-> "none", sql |-> "M", col |-> ""]) ELSE ty), fns |-> fs, bad |-> ""]
BadDialects(d) == LET f == d.fns[1] with(g) == DDoc([d EXCEPT !.fns[1] = g]) IN <<
    <<"no types", DDoc([d EXCEPT !.types = <<>>])>>,
    <<"no functions", DDoc([d EXCEPT !.fns = <<>>])>>,
    <<"undeclared namespace", with([f EXCEPT !.dep = "ghost"])>>,
    <<"no kernels", with([f EXCEPT !.kernels = <<>>])>>,
    <<"no name", [scalar_functions |-> <<[supported_kernels |-> <<"i32">>]>>] @@ DDoc(d)>>,
    <<"name without namespace", [aggregate_functions |-> <<[name |-> "f", supported_kernels |-> <<"i32">>]>>] @@ DDoc(d)>>,
    <<"name with two namespaces", [window_functions |-> <<[name |-> "one.two.f", supported_kernels |-> <<"i32">>]>>] @@ DDoc(d)>>,
    <<"unknown type in kernel", with([f EXCEPT !.kernels = Append(@, <<"i32_i99", "">>)])>>,
    <<"functions not a list", [scalar_functions |-> "f"] @@ DDoc(d)>>,
    <<"types not a map", [supported_types |-> <<"i32">>] @@ DDoc(d)>>,
    <<"type entry not a map", LET j == RE(DOMAIN d.types) IN [supported_types |-> ((d.types[j].key :> <<"i32">>) @@ DDoc(d).supported_types)] @@ DDoc(d)>>,
    <<"type entry of wrong kinds", LET j == RE(DOMAIN d.types) IN [supported_types |-> ((d.types[j].key :> [sql_type_name |-> "X", supported_as_column |-> "maybe"]) @@ DDoc(d).supported_types)] @@ DDoc(d)>>,
    <<"not a map", <<1, 2>>>> >>
(* ---- questions put to the localised registries ---- *)
GType1(d, x) == LET k == IF Chance(3, 4) /\ d.types # <<>> THEN Pick(d.types).kind ELSE Pick(TypeNames)[3] IN
    IF k = "none" THEN T0("i32", "2") ELSE
    Nd(k, <<Pick(<<"1", "2">>), "0">> \o (CASE k = "decimal" -> Pick(<< <<"10", "2">>, <<"38", "0">> >>) [] In(k, Fixed) -> <<Pick(<<"1", "10", "2147483647">>)>>
        [] In(k, Prec) -> <<Pick(<<"0", "3", "6", "9">>)>> [] OTHER -> <<>>), <<>>)
GParams(x) == Pick(<< <<>>, <<"6">>, <<"10", "2">>, <<"3">>, <<"1", "2", "3">> >>)
GSubText(d, x) == LET t == TLCEval(GType1(d, 0)) ns == TypeNames[CHOOSE j \in DOMAIN TypeNames : TypeNames[j][3] = t.k]
                      ps == TLCEval(IF Chance(3, 4) THEN DTypeP(t) ELSE GParams(0)) nm == IF Chance(1, 10) THEN Pick(<<"myth", "I32", "u!point", "list", "">>) ELSE ns[RE(1..2)] IN
    [name |-> nm, nul |-> t.p[1], ps |-> ps, text |-> nm \o (IF t.p[1] = "1" THEN "?" ELSE "") \o Parens("<", ps, ">")]
GLocText(d, x) == LET td == TLCEval(IF d.types = <<>> THEN [kind |-> "i32", sql |-> "INTEGER"] ELSE Pick(d.types)) t == TLCEval(GType1([d EXCEPT !.types = <<[kind |-> td.kind]>>], 0))
                      base == IF Chance(1, 12) THEN Pick(<<"NOPE", "int", "VARCHAR", "TIMESTAMP">>) ELSE td.sql IN
    IF base \in {"TIMESTAMP(6)", "T?"} THEN [base |-> IF base = "T?" THEN "T?" ELSE "TIMESTAMP", ps |-> IF base = "T?" THEN <<>> ELSE <<"6">>, text |-> base]
    ELSE LET ps == TLCEval(IF Chance(3, 4) THEN DTypeP(t) ELSE GParams(0)) IN [base |-> base, ps |-> ps, text |-> base \o Parens("(", ps, ")")]
GLook(d, x) == LET fs == d.fns f == TLCEval(Pick(fs)) w == Pick(<<"local", "substrait", "plain">>) IN
    [kind |-> IF Chance(4, 5) THEN f.kind ELSE Pick(Kinds), by |-> w,
     name |-> IF Chance(1, 5) THEN Pick(FNames \o <<"+", "ghost">>) ELSE IF w = "local" THEN Dflt(f.local, f.name) ELSE f.name, count |-> RE(0..4)]
GCallArg(d, a) == IF a.k = "enum" THEN Nd("enum", <<>>, <<>>) ELSE GType1(d, 0)
GOptVal(x) == Pick(<<"ERROR", "ERROR", "SILENT", "error", "SATURATE">>)
GCallOpt(x) == LET m == RE(1..2) IN [name |-> Pick(<<"overflow", "overflow", "overflow", "Overflow", "rounding", "ghost">>), prefs |-> TLCEval([j \in 1..m |-> GOptVal(j)])]
GCall(c, d, x) ==
    LET all == TLCEval(All(c))
        mine == TLCEval(SelectSeq(all, LAMBDA e : \E k \in {e.kind} : <<e.urn, e.compound>> \in Ids(Infos(d, k))))
        e == TLCEval(IF mine # <<>> /\ Chance(3, 4) THEN Pick(mine) ELSE Pick(all))
        no == TLCEval(Pick(<<0, 0, 1, 1, 2>>))
    IN [kind |-> e.kind, urn |-> e.urn, compound |-> e.compound, args |-> TLCEval([j \in DOMAIN e.args |-> GCallArg(d, e.args[j])]), opts |-> TLCEval([j \in 1..no |-> GCallOpt(j)])]
GScn(m) ==
    LET c == TLCEval(GColl(0)) d0 == TLCEval(GDialect(c)) b == TLCEval(IF Chance(1, 10) THEN Pick(BadDialects(d0)) ELSE <<"", DDoc(d0)>>)
        d == TLCEval([d0 EXCEPT !.bad = b[1]])
    IN [id |-> m, op |-> "dialect", tag |-> d.bad, coll |-> c, docs |-> TLCEval([j \in DOMAIN c |-> Doc(c[j])]), d |-> d, doc |-> b[2],
        types |-> TLCEval([j \in 1..4 |-> GType1(d, j)]), texts |-> TLCEval([j \in 1..4 |-> GSubText(d, j)]), locals |-> TLCEval([j \in 1..4 |-> GLocText(d, j)]),
        looks |-> TLCEval([j \in 1..6 |-> GLook(d, j)]), calls |-> IF All(c) = <<>> THEN <<>> ELSE TLCEval([j \in 1..6 |-> GCall(c, d, j)])]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* the text of every type a dialect declares reads back as a type that has that text *)
Law == sc.op = "dialect" /\ sc.d.bad = "" => \A j \in DOMAIN sc.types : LET t == sc.types[j] IN
    TypeOk(sc.d, t) => LET e == sc.d.types[CHOOSE j2 \in TypeDecl(sc.d, t.k) : TRUE] IN WithNull(t, "2") \in LocalReadings(sc.d, e.sql, DTypeP(t))
=============================================================================
