-------------------------------- MODULE Types --------------------------------
(* Data types. A type is a node: k = kind, p[1] = nullability ("0" unspecified, "1" nullable, "2" required),
   p[2] = type variation, p[3..] = parameters; c = component types (for func: parameter types then the return type;
   for user_defined: parameter nodes P:null | P:type | P:bool | P:int | P:enum | P:string). *)
EXTENDS Lib

Simple == <<"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "date", "time",
            "timestamp_tz", "interval_year", "uuid">>
Prec == <<"interval_day", "interval_compound", "precision_time", "precision_timestamp", "precision_timestamp_tz">>
Fixed == <<"fixed_char", "varchar", "fixed_binary">>
Nested == <<"struct", "list", "map", "func", "user_defined">>
AllKinds == Simple \o Prec \o Fixed \o <<"decimal">> \o Nested
In(x, s) == \E j \in DOMAIN s : s[j] = x
NParams(k) == IF In(k, Prec) \/ In(k, Fixed) \/ k = "user_defined" THEN 1 ELSE IF k = "decimal" THEN 2 ELSE 0

T0(k, n) == Nd(k, <<n, "0">>, <<>>)
T1(k, n, a) == Nd(k, <<n, "0", a>>, <<>>)
Nul(t) == t.p[1]
WithNull(t, n) == [t EXCEPT !.p[1] = n]

(* Normal form: an interval_day without an explicit precision means microseconds. *)
RECURSIVE NormT(_)
NormT(t) == LET t2 == IF t.k = "interval_day" /\ t.p[3] = "" THEN [t EXCEPT !.p[3] = "6"] ELSE t
            IN  IF t.c = <<>> THEN t2 ELSE [t2 EXCEPT !.c = [j \in DOMAIN t.c |-> NormT(t.c[j])]]

(* Structural equality: uniform trees, so equality of normal forms is the specification of Equals. *)
SameType(a, b) == NormT(a) = NormT(b)

RECURSIVE WFT(_)
WFT(t) == /\ t.k \in {AllKinds[j] : j \in DOMAIN AllKinds}
          /\ Len(t.p) = 2 + NParams(t.k)
          /\ t.p[1] \in {"0", "1", "2"}
          /\ t.k = "list" => Len(t.c) = 1
          /\ t.k = "map" => Len(t.c) = 2
          /\ t.k = "func" => Len(t.c) >= 1 /\ t.p[2] = "0"
          /\ t.k # "user_defined" => \A j \in DOMAIN t.c : WFT(t.c[j])
          /\ t.k = "user_defined" => \A j \in DOMAIN t.c : t.c[j].k = "P:type" => WFT(t.c[j].c[1])

(* ---- grammar ---- *)
GNul(x) == Pick(<<"0", "1", "1", "2", "2">>)
GVar(x) == Pick(<<"0", "0", "0", "1", "7", "4294967295">>)
GPrec(x) == ToString(RE(0..9))
GLen(x) == Pick(<<"0", "1", "5", "25", "2147483647">>)
RECURSIVE GType(_)
RECURSIVE GKind(_, _)
GParam(d) == LET k == Pick(<<"P:null", "P:type", "P:bool", "P:int", "P:enum", "P:string">>) IN
    CASE k = "P:null" -> Nd(k, <<>>, <<>>)
      [] k = "P:type" -> Nd(k, <<>>, <<GType(d - 1)>>)
      [] k = "P:bool" -> Nd(k, <<Pick(<<"true", "false">>)>>, <<>>)
      [] k = "P:int" -> Nd(k, <<Pick(<<"0", "1", "-1", "38", "9223372036854775807", "-9223372036854775808">>)>>, <<>>)
      [] OTHER -> Nd(k, <<Pick(<<"", "a", "VALUE", "b c">>)>>, <<>>)
GKind(k, d) ==
    LET n == GNul(0) v == GVar(0) IN
    CASE In(k, Simple) -> Nd(k, <<n, v>>, <<>>)
      [] k = "interval_day" -> Nd(k, <<n, v, IF Chance(1, 6) THEN "" ELSE GPrec(0)>>, <<>>)
      [] In(k, Prec) -> Nd(k, <<n, v, GPrec(0)>>, <<>>)
      [] In(k, Fixed) -> Nd(k, <<n, v, GLen(0)>>, <<>>)
      [] k = "decimal" -> Nd(k, <<n, v, ToString(RE(1..38)), ToString(RE(0..10))>>, <<>>)
      [] k = "list" -> Nd(k, <<n, v>>, <<GType(d - 1)>>)
      [] k = "map" -> Nd(k, <<n, v>>, <<GType(d - 1), GType(d - 1)>>)
      [] k = "struct" -> LET m == RE(0..3) IN Nd(k, <<n, v>>, TLCEval([j \in 1..m |-> GType(d - 1)]))
      [] k = "func" -> LET m == RE(1..3) IN Nd(k, <<n, "0">>, TLCEval([j \in 1..m |-> GType(d - 1)]))
      [] k = "user_defined" -> LET m == RE(0..3) IN
            Nd(k, <<n, v, Pick(<<"0", "1", "3", "4294967295">>)>>, TLCEval([j \in 1..m |-> GParam(d)]))
GType(d) == IF d <= 0 \/ Chance(2, 3) THEN GKind(Pick(Simple \o Prec \o Fixed \o <<"decimal">>), 0)
            ELSE GKind(Pick(Nested), d)

(* A type that differs from t in one place (or, rarely, not at all). *)
Other(v, s) == LET c == SelectSeq(s, LAMBDA x : x # v) IN Pick(c)
SameShape(k) == IF In(k, Simple) THEN Simple ELSE IF In(k, Prec) THEN Prec ELSE IF In(k, Fixed) THEN Fixed ELSE <<k>>
MutParam(x) == CASE x.k = "P:null" -> Nd("P:bool", <<"false">>, <<>>)
                 [] x.k = "P:bool" -> Nd(x.k, <<IF x.p[1] = "true" THEN "false" ELSE "true">>, <<>>)
                 [] x.k = "P:int" -> Nd(x.k, <<Other(x.p[1], <<"0", "1", "2">>)>>, <<>>)
                 [] x.k = "P:enum" -> IF Chance(1, 2) THEN Nd("P:string", x.p, <<>>) ELSE Nd(x.k, <<x.p[1] \o "x">>, <<>>)
                 [] x.k = "P:string" -> Nd(x.k, <<x.p[1] \o "x">>, <<>>)
                 [] OTHER -> x
RECURSIVE MutT(_)
MutT(t) ==
    IF t.c # <<>> /\ Chance(1, 2) THEN
        LET j == RE(DOMAIN t.c) IN
        CASE t.k = "user_defined" /\ t.c[j].k = "P:type" /\ Chance(2, 3) -> [t EXCEPT !.c[j].c[1] = MutT(t.c[j].c[1])]
          [] t.k = "user_defined" /\ Chance(1, 2) -> [t EXCEPT !.c[j] = MutParam(t.c[j])]
          [] t.k \in {"struct", "user_defined", "func"} /\ Len(t.c) > 1 /\ Chance(1, 4) ->
                IF Chance(1, 2) THEN [t EXCEPT !.c = SubSeq(t.c, 1, Len(t.c) - 1)] ELSE [t EXCEPT !.c = Reverse(t.c)]
          [] t.k = "user_defined" -> [t EXCEPT !.c = Append(t.c, Nd("P:null", <<>>, <<>>))]
          [] t.k \in {"list", "map", "struct", "func"} /\ t.k # "user_defined" -> [t EXCEPT !.c[j] = MutT(t.c[j])]
    ELSE LET w == RE(1..4) IN
        CASE w = 1 -> [t EXCEPT !.p[1] = Other(t.p[1], <<"0", "1", "2">>)]
          [] w = 2 /\ t.k # "func" -> [t EXCEPT !.p[2] = Other(t.p[2], <<"0", "1", "2">>)]
          [] w = 3 /\ Len(t.p) > 2 ->
                LET j == RE(3..Len(t.p)) IN [t EXCEPT !.p[j] = Other(t.p[j], <<"0", "1", "2", "3">>)]
          [] OTHER -> [NormT(t) EXCEPT !.k = IF Len(SameShape(t.k)) > 1 THEN Other(t.k, SameShape(t.k)) ELSE t.k]

(* ---- the derivation machine: a pool of handed-out types, each step hands out one more ---- *)
RegNames == <<  \* names known to the type registries with the type they denote, nullability aside
   <<"i8", T0("i8", "2")>>, <<"i16", T0("i16", "2")>>, <<"i32", T0("i32", "2")>>, <<"i64", T0("i64", "2")>>,
   <<"fp32", T0("fp32", "2")>>, <<"fp64", T0("fp64", "2")>>, <<"string", T0("string", "2")>>, <<"str", T0("string", "2")>>,
   <<"binary", T0("binary", "2")>>, <<"vbin", T0("binary", "2")>>, <<"boolean", T0("bool", "2")>>, <<"bool", T0("bool", "2")>>,
   <<"date", T0("date", "2")>>, <<"time", T0("time", "2")>>, <<"timestamp", T0("timestamp", "2")>>, <<"ts", T0("timestamp", "2")>>,
   <<"timestamp_tz", T0("timestamp_tz", "2")>>, <<"interval_year", T0("interval_year", "2")>>, <<"iyear", T0("interval_year", "2")>>,
   <<"interval_day", T1("interval_day", "2", "0")>>, <<"iday", T1("interval_day", "2", "0")>>, <<"uuid", T0("uuid", "2")>>>>
RegType(s) == LET j == CHOOSE j \in DOMAIN RegNames : RegNames[j][1] = s \/ RegNames[j][1] \o "?" = s
              IN  WithNull(RegNames[j][2], IF RegNames[j][1] = s THEN "2" ELSE "1")
NameType(s) == WithNull(RegType(s), "0")

(* Result of one step on a pool; the pool itself never changes otherwise. *)
Derive(pool, st) ==
    CASE st.o = "null" -> WithNull(pool[st.h], ToString(st.n))
      [] st.o = "list" -> Nd("list", <<ToString(st.n), "0">>, <<pool[st.h]>>)
      [] st.o = "struct" -> Nd("struct", <<ToString(st.n), "0">>, <<pool[st.h], pool[st.g]>>)
      [] st.o = "concat" -> Nd("struct", <<"2", "0">>, pool[st.h].c \o pool[st.g].c)
      [] st.o = "sub" -> Nd("struct", <<"2", "0">>, SubSeq(pool[st.h].c, 1, Min2(st.n, Len(pool[st.h].c))))
      [] st.o = "reg" -> RegType(st.s)
      [] st.o = "name" -> NameType(st.s)
      [] st.o = "proto" -> pool[st.h]
=============================================================================
