------------------------------ MODULE TypeExpr ------------------------------
(* Type expressions of function definitions: their abstract syntax, the text that denotes them, and the malformed
   texts around them.  AST nodes:
     simple types        k, p = <<null>>                    (null: "1" nullable, "2" required)
     parameterised       varchar, ... , decimal: c = integer parameters  num p=<<n>> | var p=<<name>>
     list, map, struct, func (parameters then result)
     udt                 p = <<null, name>>, c = type | num | str p=<<s>>
     any                 p = <<null, name>>
     derive              c = assign nodes (p=<<name>>, c=<<expr>>) then the final type
     expressions         num, var, bin p=<<op>>, if p=<<"ternary" | "if">>, not, call p=<<name>> *)
EXTENDS Types

TSimple == <<"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "date", "time",
             "timestamp_tz", "interval_year", "uuid">>
TInt == <<"fixed_char", "varchar", "fixed_binary", "precision_time", "precision_timestamp", "precision_timestamp_tz", "interval_day">>
TNested == <<"list", "map", "struct", "func", "udt">>
Keyword == <<<<"bool", "boolean", "BOOLEAN">>, <<"i8", "i8", "I8">>, <<"i16", "i16", "I16">>, <<"i32", "i32", "I32">>,
    <<"i64", "i64", "I64">>, <<"fp32", "fp32", "FP32">>, <<"fp64", "fp64", "FP64">>, <<"string", "string", "STRING">>,
    <<"binary", "binary", "BINARY">>, <<"timestamp", "timestamp", "TIMESTAMP">>, <<"date", "date", "DATE">>,
    <<"time", "time", "TIME">>, <<"timestamp_tz", "timestamp_tz", "TIMESTAMP_TZ">>,
    <<"interval_year", "interval_year", "INTERVAL_YEAR">>, <<"uuid", "uuid", "UUID">>,
    <<"fixed_char", "fixedchar", "FIXEDCHAR">>, <<"varchar", "varchar", "VARCHAR">>, <<"fixed_binary", "fixedbinary", "FIXEDBINARY">>,
    <<"precision_time", "precision_time", "PRECISION_TIME">>, <<"precision_timestamp", "precision_timestamp", "PRECISION_TIMESTAMP">>,
    <<"precision_timestamp_tz", "precision_timestamp_tz", "PRECISION_TIMESTAMP_TZ">>, <<"interval_day", "interval_day", "INTERVAL_DAY">>,
    <<"decimal", "decimal", "DECIMAL">>, <<"list", "list", "LIST">>, <<"map", "map", "MAP">>, <<"struct", "struct", "Struct">>,
    <<"func", "func", "FUNC">>>>
Kw(k, y) == LET j == CHOOSE j \in DOMAIN Keyword : Keyword[j][1] = k IN Keyword[j][IF y.up THEN 3 ELSE 2]

(* ---- text: a sequence of tokens; y = style [sp, up, par, kw] ---- *)
Q(t) == IF t.p[1] = "1" THEN <<"?">> ELSE <<>>
RECURSIVE RT(_, _)
RECURSIVE RX(_, _)
RECURSIVE RList(_, _)
RList(ts, y) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN RT(ts[1], y) ELSE RT(ts[1], y) \o <<",", y.sp>> \o RList(Tail(ts), y)
Angle(ts, y) == <<y.sp, "<", y.sp>> \o ts \o <<y.sp, ">">>
Init1(s) == SubSeq(s, 1, Len(s) - 1)
RT(t, y) ==
    CASE t.k \in {"num", "var", "str"} -> <<t.p[1]>>
      [] t.k = "any" -> <<t.p[2]>> \o Q(t)
      [] t.k = "udt" -> <<"u!" \o t.p[2]>> \o Q(t) \o (IF t.c = <<>> THEN <<>> ELSE Angle(RList(t.c, y), y))
      [] t.k = "func" -> <<Kw("func", y)>> \o Q(t) \o Angle(
              (IF Len(t.c) = 2 /\ ~y.par THEN RT(t.c[1], y) ELSE <<"(">> \o RList(Init1(t.c), y) \o <<")">>)
              \o <<" ", "->", " ">> \o RT(Last(t.c), y), y)
      [] t.k = "derive" -> Flat([j \in 1..Len(t.c) - 1 |-> <<t.c[j].p[1], " ", "=", " ">> \o RX(t.c[j].c[1], y) \o (IF y.sp = "" THEN <<"\n">> ELSE <<"\n", "\n">>)])
              \o RT(Last(t.c), y)
      [] In(t.k, TSimple) -> <<Kw(t.k, y)>> \o Q(t)
      [] OTHER -> <<Kw(t.k, y)>> \o Q(t) \o Angle(RList(t.c, y), y)
\* words are read in either case
Words == <<<<"and", "AND">>, <<"or", "Or">>, <<"if", "IF">>, <<"then", "Then">>, <<"else", "ELSE">>, <<"min", "MIN">>, <<"max", "Max">>, <<"abs", "ABS">>>>
Wd(w, y) == IF y.kw /\ \E j \in DOMAIN Words : Words[j][1] = w THEN Words[CHOOSE j \in DOMAIN Words : Words[j][1] = w][2] ELSE w
Paren(ts) == <<"(">> \o ts \o <<")">>
Opd(x, y, force, opt) == IF x.k \in force \/ (x.k \in opt /\ y.par) THEN Paren(RX(x, y)) ELSE RX(x, y)
RXArgs(cs, y) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN RX(cs[1], y) ELSE RX(cs[1], y) \o <<",", " ">> \o RX(cs[2], y)
RX(x, y) ==
    CASE x.k \in {"num", "var"} -> <<x.p[1]>>
      \* a bare variable before "=" would read as the start of the next assignment
      [] x.k = "bin" /\ x.p[1] = "=" -> Paren(RX(x.c[1], y)) \o <<" ", "=", " ">> \o Opd(x.c[2], y, {"if", "not", "bin"}, {"num"})
      [] x.k = "bin" -> Opd(x.c[1], y, {"if", "not"}, {"bin"}) \o <<" ", Wd(x.p[1], y), " ">> \o Opd(x.c[2], y, {"if", "not", "bin"}, {"num"})
      [] x.k = "if" /\ x.p[1] = "ternary" -> Opd(x.c[1], y, {"if", "not"}, {"bin"}) \o <<" ", "?", " ">> \o Opd(x.c[2], y, {"if", "not"}, {"bin"})
              \o <<" ", ":", " ">> \o Opd(x.c[3], y, {"if", "not"}, {"bin"})
      [] x.k = "if" -> <<Wd("if", y), " ">> \o Opd(x.c[1], y, {"if"}, {"bin", "not"}) \o <<" ", Wd("then", y), " ">> \o Opd(x.c[2], y, {"if"}, {"bin", "not"})
              \o <<" ", Wd("else", y), " ">> \o Opd(x.c[3], y, {"if"}, {"bin", "not"})
      [] x.k = "not" -> <<"!">> \o Opd(x.c[1], y, {"if", "bin"}, {"not", "var"})
      [] x.k = "call" -> <<Wd(x.p[1], y), "(">> \o RXArgs(x.c, y) \o <<")">>
Text(ts) == FoldLeft(LAMBDA a, b : a \o b, "", ts)
GStyle(x) == [sp |-> Pick(<<"", "", " ">>), up |-> Chance(1, 4), par |-> Chance(1, 3), kw |-> Chance(1, 4)]
Canon == [sp |-> "", up |-> FALSE, par |-> FALSE, kw |-> FALSE]

(* ---- generation ---- *)
(* g: [ints: integer variable names allowed, anys: named type variables allowed, any: plain any allowed, udts] *)
TN(x) == Pick(<<"1", "2", "2">>)
Num(v) == Nd("num", <<v>>, <<>>)
Var(v) == Nd("var", <<v>>, <<>>)
IntP(g, nums) == IF g.ints # <<>> /\ Chance(1, 2) THEN Var(Pick(g.ints)) ELSE Num(Pick(nums))
LenNums == <<"1", "5", "10", "2147483647">>
PrecNums == <<"0", "3", "6", "9">>
RECURSIVE GTE(_, _)
GLeafTE(g) ==
    LET w == RE(1..10) IN
    CASE w <= 4 -> Nd(Pick(TSimple), <<TN(0)>>, <<>>)
      [] w <= 6 -> LET k == Pick(TInt) IN Nd(k, <<TN(0)>>, <<IntP(g, IF In(k, Fixed) THEN LenNums ELSE PrecNums)>>)
      [] w <= 7 -> Nd("decimal", <<TN(0)>>, <<IntP(g, <<"10", "38">>), IntP(g, <<"0", "2">>)>>)
      [] w <= 9 /\ (g.anys # <<>> \/ g.any) -> Nd("any", <<TN(0), IF g.anys = <<>> \/ (g.any /\ Chance(1, 4)) THEN "any" ELSE Pick(g.anys)>>, <<>>)
      [] OTHER -> Nd("i32", <<TN(0)>>, <<>>)
GNestTE(g, d) ==
    LET k == Pick(TNested) IN
    CASE k = "list" -> Nd(k, <<TN(0)>>, <<GTE(g, d - 1)>>)
      [] k = "map" -> Nd(k, <<TN(0)>>, <<GTE(g, d - 1), GTE(g, d - 1)>>)
      [] k = "struct" -> LET m == RE(1..3) IN Nd(k, <<TN(0)>>, TLCEval([j \in 1..m |-> GTE(g, d - 1)]))
      [] k = "func" -> LET m == RE(2..3) IN Nd(k, <<TN(0)>>, TLCEval([j \in 1..m |-> GTE(g, d - 1)]))
      [] k = "udt" -> LET m == RE(0..2) IN Nd(k, <<TN(0), Pick(g.udts)>>,
             TLCEval([j \in 1..m |-> LET w == RE(1..5) IN IF w = 1 THEN Num(Pick(<<"0", "7", "2147483647">>)) ELSE IF w = 2 THEN Nd("str", <<Pick(<<"abc", "V2">>)>>, <<>>) ELSE GTE(g, d - 1)]))
GTE(g, d) == IF d <= 0 \/ Chance(1, 2) THEN GLeafTE(g) ELSE GNestTE(g, d)
(* integer and boolean expressions over the variables vs *)
RECURSIVE GIX(_, _)
RECURSIVE GBX(_, _)
RECURSIVE GIY(_, _)
RECURSIVE GBY(_, _)
\* at times an operand of the wrong sort
GIY(vs, d) == IF Chance(1, 30) THEN GBX(vs, d) ELSE GIX(vs, d)
GBY(vs, d) == IF Chance(1, 12) THEN GIX(vs, d) ELSE GBX(vs, d)
GIX(vs, d) ==
    LET w == IF d <= 0 THEN RE(1..3) ELSE RE(1..9) IN
    CASE w <= 2 /\ vs # <<>> -> Var(Pick(vs))
      [] w <= 3 -> Num(Pick(<<"0", "1", "2", "3", "7", "38">>))
      [] w <= 6 -> Nd("bin", <<Pick(<<"+", "-", "*", "/">>)>>, <<GIY(vs, d - 1), GIY(vs, d - 1)>>)
      [] w = 7 -> LET f == Pick(<<"min", "max", "abs">>) IN
                  Nd("call", <<f>>, IF f = "abs" /\ ~Chance(1, 15) THEN <<GIX(vs, d - 1)>> ELSE <<GIX(vs, d - 1), GIX(vs, d - 1)>>)
      [] OTHER -> Nd("if", <<Pick(<<"ternary", "if">>)>>, <<GBY(vs, d - 1), GIX(vs, d - 1), GIX(vs, d - 1)>>)
GBX(vs, d) ==
    LET w == IF d <= 0 THEN 1 ELSE RE(1..5) IN
    CASE w <= 3 -> Nd("bin", <<Pick(<<"<", "<=", ">", ">=", "=", "!=">>)>>, <<GIX(vs, d - 1), GIX(vs, d - 1)>>)
      [] w = 4 -> Nd("bin", <<Pick(<<"and", "or">>)>>, <<GBY(vs, d - 1), GBY(vs, d - 1)>>)
      [] OTHER -> Nd("not", <<>>, <<GBY(vs, d - 1)>>)
AsgNames == <<"prec", "scale", "n">>
GDerive(g, d) ==
    LET m == RE(1..3)
        \* a name may be assigned again, a parameter's name too
        nm == TLCEval([j \in 1..m |-> IF Chance(1, 4) /\ g.ints # <<>> THEN Pick(g.ints) ELSE IF j > 1 /\ Chance(1, 3) THEN AsgNames[1] ELSE AsgNames[j]])
        vs(j) == g.ints \o SubSeq(nm, 1, j - 1)
    IN Nd("derive", <<>>, TLCEval([j \in 1..m |-> Nd("assign", <<nm[j]>>, <<GIX(vs(j), 2)>>)])
          \o <<LET fin == GTE([g EXCEPT !.ints = nm \o g.ints], d) IN fin>>)
RECURSIVE HasK(_, _)
HasK(t, k) == t.k = k \/ \E j \in DOMAIN t.c : HasK(t.c[j], k)

(* ---- malformed text ---- *)
GFull == [ints |-> <<"L1", "P", "S">>, anys |-> <<"any1", "any2">>, any |-> TRUE, udts |-> <<"point", "A_b9">>]
Del(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Ins(s, j, x) == SubSeq(s, 1, j) \o <<x>> \o SubSeq(s, j + 1, Len(s))
Idx(s, x) == {j \in DOMAIN s : s[j] = x}
BadLeaf == Nd("udt", <<"2", "point">>, <<>>)
RECURSIVE PutBad(_, _)
\* replaces one component type by something that is no type
PutBad(t, bad) == IF t.k \in {"list", "map", "struct"} /\ (Chance(1, 2) \/ \A j \in DOMAIN t.c : t.c[j].k \notin {"list", "map", "struct"})
                  THEN LET j == RE(DOMAIN t.c) IN [t EXCEPT !.c[j] = bad]
                  ELSE IF t.k \in {"list", "map", "struct"}
                  THEN LET js == {j \in DOMAIN t.c : t.c[j].k \in {"list", "map", "struct"}} j == RE(js) IN [t EXCEPT !.c[j] = PutBad(t.c[j], bad)]
                  ELSE Nd("list", <<"2">>, <<bad>>)
GBadText(x) ==
    LET y == GStyle(0)
        t == TLCEval(GTE(GFull, 3))
        ts == TLCEval(RT(t, y))
        w == RE(1..10)
    IN CASE w = 1 /\ Idx(ts, ">") # {} -> Text(Del(ts, RE(Idx(ts, ">"))))
         [] w = 2 /\ Idx(ts, "<") # {} -> Text(Del(ts, RE(Idx(ts, "<"))))
         [] w = 3 -> Text(ts \o <<" ", Pick(<<"i32", ">", ",", "foo", "->", "5", "<", ")">>)>>)
         [] w = 4 -> Text(RT(PutBad(t, Num("5")), y))
         [] w = 5 -> Text(RT(PutBad(t, Var("foo")), y))
         [] w = 6 -> Text(RT(Nd(Pick(TInt), <<"2">>, <<Pick(<<Num("i32"), Num("2147483648"), Num("99999999999999999999"), Num("5.5"), Num(""), Num("'x'"), Num("1,2")>>)>>), y))
         [] w = 7 -> Text(RT(Nd("decimal", <<"2">>, Pick(<<<<Num("10")>>, <<Num("1"), Num("2"), Num("3")>>, <<Num("10"), Num("string")>>, <<>>>>)), y))
         [] w = 8 -> LET j == RE(0..Len(ts)) IN Text(SubSeq(ts, 1, j) \o <<Pick(<<"@", "}", "\\", ";", "'">>)>> \o SubSeq(ts, j + 1, Len(ts)))
         [] w = 9 -> Pick(<<"", " ", "foo", "5", "P", "any12", "i33", "varchar", "list", "decimal", "struct<>", "map<i32>", "func<i32>", "u!", "u!5", "i32??", "i32 ?  ?", "list<i32>?", "<i32>",
                            "prec = 1", "prec = 1 i32", "prec = \ni32", "prec == 1\ni32", "= 1\ni32", "prec = 1 +\nvarchar<prec>", "prec = if 1 < 2 then 3\nvarchar<prec>", "prec = 1 < 2 ? 3\nvarchar<prec>",
                            "prec = max(1,\nvarchar<prec>", "nullable i32", "i32[]", "varchar[5]", "timestamp_tz<3>", "string<5>", "prec = i32\nvarchar<prec>", "x + 1", "max(1, 2)", "!i32", "(i32", "i32)", "varchar<>", "decimal<,>", "list<,i32>", "struct<i32,>">>)
         [] OTHER -> Text(RT(Nd("derive", <<>>, <<Nd("assign", <<"prec">>, <<GIX(<<"P">>, 1)>>), Pick(<<Var("prec"), Num("5"), Nd("varchar", <<"2">>, <<Num("prec +")>>)>>)>>), y))
=============================================================================
