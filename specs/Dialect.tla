------------------------------- MODULE Dialect -------------------------------
(* A dialect: the types and function implementations one system supports, under its own names.
   d: [deps: <<<<alias, urn>>..>>, types: <<[key, kind, sql, col]..>>, bad: "" or what is wrong with the text,
       fns: <<[kind, dep, name, local, notation, opts: <<<<name, value>>..>>, kernels: <<<<text, signature>>..>>]..>>]
   c: the loaded files of a collection (module Collection). *)
EXTENDS Collection

Kinds == <<"scalar", "aggregate", "window">>
(* ---- types by their Substrait names: <<long, short, kind>> ---- *)
TypeNames == <<<<"i8", "i8", "i8">>, <<"i16", "i16", "i16">>, <<"i32", "i32", "i32">>, <<"i64", "i64", "i64">>, <<"fp32", "fp32", "fp32">>, <<"fp64", "fp64", "fp64">>,
    <<"string", "str", "string">>, <<"binary", "vbin", "binary">>, <<"boolean", "bool", "bool">>, <<"date", "date", "date">>, <<"time", "time", "time">>,
    <<"timestamp", "ts", "timestamp">>, <<"timestamp_tz", "tstz", "timestamp_tz">>, <<"interval_year", "iyear", "interval_year">>, <<"uuid", "uuid", "uuid">>,
    <<"fixedbinary", "fbin", "fixed_binary">>, <<"fixedchar", "fchar", "fixed_char">>, <<"varchar", "vchar", "varchar">>, <<"decimal", "dec", "decimal">>,
    <<"interval_day", "iday", "interval_day">>, <<"precision_time", "pt", "precision_time">>, <<"precision_timestamp", "pts", "precision_timestamp">>,
    <<"precision_timestamp_tz", "ptstz", "precision_timestamp_tz">>>>
KindOfName(nm) == LET js == {j \in DOMAIN TypeNames : nm \in {TypeNames[j][1], TypeNames[j][2]}} IN IF js = {} THEN "none" ELSE TypeNames[CHOOSE j \in js : TRUE][3]
(* how many parameters the text of a type takes *)
PrecOk(k, ps) == In(k, Prec) => \A j \in DOMAIN ps : ps[j] \in {ToString(x) : x \in 0..9}
TakesParams(k, m) == CASE k = "decimal" -> m = 2
                       [] In(k, Fixed) -> m = 1
                       [] In(k, Prec) -> m <= 1
                       [] OTHER -> m = 0
DTypeP(t) == SubSeq(t.p, 3, Len(t.p))
MkT(k, nul, ps) == Nd(k, <<nul, "0">> \o (IF In(k, Prec) /\ ps = <<>> THEN <<"0">> ELSE ps), <<>>)
TypeDecl(d, k) == {j \in DOMAIN d.types : d.types[j].kind = k}
TypeOk(d, t) == TypeDecl(d, t.k) # {}
Parens(o, ps, cl) == IF ps = <<>> THEN "" ELSE o \o JoinStr(ps, ",") \o cl
LocalText(d, t) == d.types[CHOOSE j \in TypeDecl(d, t.k) : TRUE].sql \o Parens("(", DTypeP(t), ")")
InTables(d, t) == \E j \in TypeDecl(d, t.k) : d.types[j].col # "false"
(* a local type text, given as base and parameters, may denote: *)
LocalReadings(d, base, ps) == {MkT(d.types[j].kind, "2", ps) : j \in {j \in DOMAIN d.types : d.types[j].sql = base /\ TakesParams(d.types[j].kind, Len(ps)) /\ PrecOk(d.types[j].kind, ps)}}
    \cup {MkT(d.types[j].kind, "2", <<>>) : j \in {j \in DOMAIN d.types : ps # <<>> /\ d.types[j].sql = base \o Parens("(", ps, ")") /\ TakesParams(d.types[j].kind, 0)}}
SubstraitReading(d, nm, nul, ps) == LET k == KindOfName(nm) IN
    IF TypeDecl(d, k) # {} /\ TakesParams(k, Len(ps)) /\ PrecOk(k, ps) THEN {MkT(k, nul, ps)} ELSE {}

(* ---- functions ---- *)
Urn(d, al) == LET js == {j \in DOMAIN d.deps : d.deps[j][1] = al} IN IF js = {} THEN "" ELSE d.deps[CHOOSE j \in js : TRUE][2]
Infos(d, kind) == Flat([j \in DOMAIN d.fns |-> IF d.fns[j].kind # kind THEN <<>> ELSE
    [x \in DOMAIN d.fns[j].kernels |-> LET f == d.fns[j] IN
        [urn |-> Urn(d, f.dep), compound |-> f.name \o ":" \o f.kernels[x][2], name |-> f.name, local |-> Dflt(f.local, f.name), notation |-> f.notation, opts |-> f.opts]]])
Ids(s) == {<<s[j].urn, s[j].compound>> : j \in DOMAIN s}
Missing(d, c, kind) == Ids(Infos(d, kind)) \ Ids(OfKind(c, kind))
BadTypes(d) == {j \in DOMAIN d.types : d.types[j].kind = "none"}
CanLocalise(d, c) == BadTypes(d) = {} /\ \A j \in DOMAIN Kinds : Missing(d, c, Kinds[j]) = {}
(* the number of arguments an implementation is found with: the declared one and, when variadic, what its last argument allows *)
CountOk(e, m) == m = Len(e.args) \/ IF e.var = <<>> THEN FALSE ELSE LET v == m - (Len(e.args) - 1) IN v >= atoi(e.var[1]) /\ (e.var[2] = "0" \/ v <= atoi(e.var[2]))
Lower(s) == CASE s \in {"OVERFLOW", "Overflow"} -> "overflow" [] s \in {"error", "Error"} -> "ERROR" [] s = "silent" -> "SILENT" [] OTHER -> s
OptDeclared(o, nm, v) == \E j \in DOMAIN o : Lower(o[j][1]) = Lower(nm) /\ Lower(o[j][2]) = Lower(v)
(* a call may list several acceptable behaviours of an option, in order of preference: one of them has to be supported *)
CallOk(d, call) ==
    /\ \E j \in DOMAIN Infos(d, call.kind) : LET f == Infos(d, call.kind)[j] IN
          /\ f.urn = call.urn /\ f.compound = call.compound
          /\ \A x \in DOMAIN call.opts : \E y \in DOMAIN call.opts[x].prefs : OptDeclared(f.opts, call.opts[x].name, call.opts[x].prefs[y])
    /\ \A x \in DOMAIN call.args : call.args[x].k = "enum" \/ TypeOk(d, call.args[x])

(* ---- the text of a dialect ---- *)
DFnDoc(f) == [name |-> f.dep \o "." \o f.name, supported_kernels |-> [x \in DOMAIN f.kernels |-> f.kernels[x][1]]]
    @@ F(f.local # "", "local_name", f.local) @@ F(f.notation = "infix", "infix", TRUE) @@ F(f.notation = "postfix", "postfix", TRUE)
    @@ F(f.opts # <<>>, "required_options", FoldLeft(LAMBDA a, o : a @@ (o[1] :> o[2]), <<>>, f.opts))
DFnsDoc(d, kind) == LET fs == SelectSeq(d.fns, LAMBDA x : x.kind = kind) IN F(fs # <<>>, kind \o "_functions", [j \in DOMAIN fs |-> DFnDoc(fs[j])])
DDoc(d) == [name |-> "test", type |-> "sql"]
    @@ F(d.deps # <<>>, "dependencies", FoldLeft(LAMBDA a, x : a @@ (x[1] :> x[2]), <<>>, d.deps))
    @@ F(d.types # <<>>, "supported_types", FoldLeft(LAMBDA a, t : a @@ (t.key :> ([sql_type_name |-> t.sql] @@ F(t.col # "", "supported_as_column", t.col = "true"))), <<>>, d.types))
    @@ DFnsDoc(d, "scalar") @@ DFnsDoc(d, "aggregate") @@ DFnsDoc(d, "window")
=============================================================================
