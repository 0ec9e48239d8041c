----------------------------- MODULE TestFileGen -----------------------------
EXTENDS TestFile
VARIABLES n, sc
Names(k) ==
    CASE k = "bool" -> <<"bool", "boolean", "BOOL", "Boolean">> [] k = "i8" -> <<"i8", "I8">> [] k = "i16" -> <<"i16", "I16">> [] k = "i32" -> <<"i32", "I32">> [] k = "i64" -> <<"i64", "I64">>
      [] k = "fp32" -> <<"fp32", "FP32">> [] k = "fp64" -> <<"fp64", "Fp64">> [] k = "string" -> <<"str", "string", "STR", "String">>
      [] k = "binary" -> <<"binary", "vbin", "VBIN">> [] k = "timestamp" -> <<"ts", "timestamp", "TS">> [] k = "timestamp_tz" -> <<"tstz", "timestamp_tz", "TimeStamp_TZ">>
      [] k = "date" -> <<"date", "DATE">> [] k = "time" -> <<"time", "Time">> [] k = "interval_year" -> <<"iyear", "interval_year", "IYEAR">>
      [] k = "interval_day" -> <<"iday", "interval_day", "IDAY">> [] k = "fixed_char" -> <<"fchar", "fixedchar", "FIXEDCHAR">> [] k = "varchar" -> <<"vchar", "varchar", "VarChar">>
      [] k = "fixed_binary" -> <<"fbin", "fixedbinary", "FBIN">> [] k = "decimal" -> <<"dec", "decimal", "DEC">> [] k = "precision_time" -> <<"pt", "precision_time">>
      [] k = "precision_timestamp" -> <<"pts", "precision_timestamp", "PTS">> [] k = "precision_timestamp_tz" -> <<"ptstz", "precision_timestamp_tz">>
      [] k = "list" -> <<"list", "LIST">> [] k = "enum" -> <<"enum", "ENUM">>
W(t, e) == LET w == Pick(Names(t.k)) IN [t |-> t, name |-> w, e |-> e, bare |-> FALSE]
ArgKinds == <<"bool", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "timestamp", "timestamp_tz", "date", "time", "interval_year", "interval_day", "fixed_char",
              "varchar", "fixed_binary", "decimal", "precision_time", "precision_timestamp", "precision_timestamp_tz", "i32", "i64", "fp64", "string", "decimal", "interval_day", "precision_timestamp">>
GN(x) == Pick(<<"2", "2", "2", "1">>)
RECURSIVE GWT(_, _)
(* bad: a type parameter no type has *)
GWT(k, bad) ==
    LET nu == TLCEval(GN(0)) IN
    CASE k \in {"interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz"} -> W(T1(k, nu, IF bad THEN Pick(<<"10", "77">>) ELSE ToString(RE(0..9))), <<>>)
      [] k \in {"fixed_char", "fixed_binary"} -> W(T1(k, nu, ToString(RE(1..12))), <<>>)
      [] k = "varchar" -> W(T1(k, nu, IF bad THEN Pick(<<"0", "1">>) ELSE Pick(<<"12", "30", "255">>)), <<>>)
      [] k = "decimal" -> IF bad THEN LET q == Pick(<<<<"39", "2">>, <<"5", "6">>, <<"0", "0">>>>) IN W(Nd(k, <<nu, "0", q[1], q[2]>>, <<>>), <<>>)
            ELSE IF Chance(1, 6) THEN [W(Nd(k, <<nu, "0", "38", "0">>, <<>>), <<>>) EXCEPT !.bare = TRUE]
            ELSE LET p == TLCEval(Pick(<<1, 2, 5, 10, 18, 38>>)) s == TLCEval(RE(0..p)) IN W(Nd(k, <<nu, "0", ToString(p), ToString(s)>>, <<>>), <<>>)
      [] k = "list" -> LET e == TLCEval(IF Chance(1, 4) THEN GWT("list", FALSE) ELSE GWT(Pick(ArgKinds), bad)) IN W(Nd(k, <<nu, "0">>, <<e.t>>), <<e>>)
      [] OTHER -> W(T0(k, nu), <<>>)

(* a piece of a string: written, meant, characters *)
Pieces == <<<<"a", "a", 1>>, <<"B z", "B z", 3>>, <<"\\'", "'", 1>>, <<"''", "'", 1>>, <<"\\\\", "\\", 1>>, <<" ", " ", 1>>, <<"(", "(", 1>>, <<"//", "//", 2>>, <<"# x", "# x", 3>>,
            <<",", ",", 1>>, <<"~e9;", "~e9;", 1>>, <<"~1f600;", "~1f600;", 1>>, <<"::i8", "::i8", 4>>, <<"=", "=", 1>>, <<"[", "[", 1>>, <<"nl", "nl", 2>>, <<"0", "0", 1>>>>
GStr(x) == LET k == Pick(<<0, 1, 1, 2, 3>>) IN [k |-> "str", ps |-> TLCEval([j \in 1..k |-> Pick(Pieces)])]
DateLike == <<"2020-01-01", "12:30:00", "P1Y", "PT5S", "2020-01-01T00:00:00">>
NoDot(x) == Pick(<<"", "", "-", "-", "+">>)
GInt(k, bad) == LET sg == TLCEval(NoDot(0)) lim == IntLim(k, sg = "-") IN
    IF bad THEN [k |-> "int", sign |-> sg, dg |-> Pick(<<[lim EXCEPT ![Len(lim)] = @ + 1], lim \o <<0>>, <<9>> \o Tail(lim) \o <<9, 9>>, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>>>)]
    ELSE LET r == RE(1..4) d == TLCEval(<<RE(1..9)>> \o GDigs(RE(0..Len(lim) - 2))) IN
         [k |-> "int", sign |-> sg, dg |-> CASE r = 1 -> lim [] r = 2 -> <<0>> [] OTHER -> d]
Txt(sg, i, f, e, x) == [sign |-> sg, int |-> i, dot |-> f # <<>>, frac |-> f, e |-> e, eplus |-> "", exp |-> x]
Words == <<<<"inf", "inf">>, <<"+inf", "inf">>, <<"-inf", "-inf">>, <<"nan", "nan">>, <<"NaN", "nan">>, <<"-Inf", "-inf">>, <<"snan", "nan">>>>
GFp(k, bad) ==
    IF bad THEN LET x == Pick(IF k = "fp32" THEN <<39, 60, 400>> ELSE <<309, 400>>) sg == Pick(<<"", "-">>) IN [k |-> "num", t |-> Txt(sg, <<1>>, <<5>>, "e", x)]
    ELSE LET r == RE(1..5) sg == TLCEval(NoDot(0)) m == IF k = "fp32" THEN 3 ELSE 7 i == TLCEval(<<RE(0..9)>> \o GDigs(RE(0..m - 1))) f == TLCEval(GDigs(RE(1..m))) e == TLCEval(RE(-20..20)) w == TLCEval(Pick(Words)) ee == Pick(<<"e", "E">>) IN
         CASE r = 1 -> [k |-> "int", sign |-> sg, dg |-> IF i[1] = 0 THEN <<0>> ELSE i]
           [] r = 2 -> [k |-> "num", t |-> Txt(sg, i, f, "", 0)]
           [] r \in {3, 4} -> [k |-> "num", t |-> Txt(sg, i, f, ee, e)]
           [] OTHER -> [k |-> "word", w |-> w[1], v |-> w[2]]
GDecL(t, bad) ==
    LET p == atoi(t.p[3]) s == atoi(t.p[4]) sg == TLCEval(NoDot(0)) IN
    IF ~ValidPS(p, s) THEN [k |-> "num", t |-> Txt(sg, <<1>>, <<5>>, "", 0)]
    ELSE IF bad THEN IF Chance(1, 2) /\ s < 37 THEN [k |-> "num", t |-> Txt(sg, <<0>>, Zeros(s) \o <<RE(1..9)>>, "", 0)]
                     ELSE IF p - s >= 37 THEN [k |-> "word", w |-> "nan", v |-> "nan"] ELSE [k |-> "num", t |-> Txt(sg, <<1>> \o Zeros(p - s), <<>>, "", 0)]
    ELSE LET ni == TLCEval(RE(0..(p - s))) nf == TLCEval(RE(0..s)) i == TLCEval(IF ni = 0 THEN <<0>> ELSE GDigs(ni)) f == TLCEval(GDigs(nf)) r == RE(1..6) IN
         IF nf = 0 /\ r <= 3 THEN (IF i[1] = 0 THEN [k |-> "int", sign |-> sg, dg |-> <<0>>] ELSE [k |-> "int", sign |-> sg, dg |-> i])
         ELSE IF r = 6 /\ nf > 0 /\ Len(i) + nf <= 38 THEN [k |-> "num", t |-> Txt(sg, i \o f, <<>>, "e", 0 - nf)]
         ELSE [k |-> "num", t |-> Txt(sg, i, f, "", 0)]
GClock(bad, zoned) ==
    LET t0 == TLCEval(GTs(0)) t1 == TLCEval([t0 EXCEPT !.zone = IF zoned THEN "off" ELSE "none", !.off = IF zoned THEN Pick(<<0, 60, -60, 330, -765, 840, -1>>) ELSE 0])
        t == TLCEval(IF TsValid(t1) THEN t1 ELSE [t1 EXCEPT !.d = 28]) IN
    IF bad THEN CASE RE(1..5) = 1 -> [t EXCEPT !.m = 13] [] RE(1..4) = 1 -> [t EXCEPT !.d = 32] [] RE(1..3) = 1 -> [t EXCEPT !.h = 24] [] RE(1..2) = 1 -> [t EXCEPT !.mi = 60] [] OTHER -> [t EXCEPT !.s = 61]
    ELSE t
(* an instant with a 64-bit value at precision 9 *)
GClockP(bad, zoned, p) == LET t == TLCEval(GClock(bad, zoned)) IN IF p \in 8..9 /\ ~bad THEN LET u == [t EXCEPT !.y = 1970 + (@ % 200), !.d = Min2(@, 28)] IN u ELSE t
GDs(x) == LET d == Pick(<<0, 1, 1000, 2147483647, RE(0..9999)>>) h == Pick(<<0, 1, 23, 10000>>) mi == Pick(<<0, 1, 59, 100000>>) s == Pick(<<0, 1, 59, 86400>>)
              b == TLCEval([j \in 1..4 |-> Chance(1, 2)]) f == TLCEval(GDigs(Pick(<<0, 0, 1, 2, 3, 6, 7, 9>>))) IN
    [hasd |-> b[1], d |-> d, hash |-> b[2], h |-> h, hasm |-> b[3], mi |-> mi, hass |-> b[4] \/ ~(b[1] \/ b[2] \/ b[3]), s |-> s, f |-> f]
RECURSIVE GLit(_, _, _, _)
GLit(t, bad, cell, d) ==
    IF ~bad /\ Nul(t) = "1" /\ Chance(1, 4) THEN [k |-> "null", w |-> Pick(<<"null", "NULL", "Null">>)] ELSE
    IF bad /\ Nul(t) = "2" /\ ~cell /\ Chance(1, 4) THEN [k |-> "null", w |-> "null"] ELSE
    IF bad /\ cell /\ Chance(1, 3) THEN (IF t.k \in {"bool", "list"} THEN [k |-> "int", sign |-> "", dg |-> <<1>>] ELSE [k |-> "bool", w |-> "true", v |-> TRUE]) ELSE
    CASE t.k = "bool" -> LET v == TLCEval(Chance(1, 2)) w == Pick(IF v THEN <<"true", "TRUE", "True">> ELSE <<"false", "FALSE">>) IN [k |-> "bool", w |-> w, v |-> v]
      [] t.k \in {"i8", "i16", "i32", "i64"} -> GInt(t.k, bad)
      [] t.k \in {"fp32", "fp64"} -> GFp(t.k, bad)
      [] t.k = "decimal" -> GDecL(t, bad)
      [] t.k \in {"string", "binary"} -> IF cell /\ Chance(1, 4) THEN LET s == Pick(DateLike) IN [k |-> "str", ps |-> <<<<s, s, 10>>>>] ELSE GStr(0)
      [] t.k \in {"fixed_char", "fixed_binary"} -> LET m == atoi(t.p[3]) IN [k |-> "str", ps |-> TLCEval([j \in 1..m |-> Pick(<<Pieces[1], Pieces[3], Pieces[17]>>)])]
      [] t.k = "varchar" -> LET m == atoi(t.p[3]) IN IF bad THEN [k |-> "str", ps |-> [j \in 1..(m + 1) |-> Pieces[1]]] ELSE
            IF m = 12 THEN GStr(0) ELSE IF m > 12 /\ Chance(1, 2) THEN [k |-> "str", ps |-> [j \in 1..m |-> Pieces[11]]] ELSE GStr(0)
      [] t.k = "date" -> LET c == TLCEval(GClock(FALSE, FALSE)) IN [k |-> "date", t |-> IF bad THEN [c EXCEPT !.m = 2, !.d = 30] ELSE c]
      [] t.k \in {"time", "precision_time"} -> LET c == TLCEval(GClock(FALSE, FALSE)) IN [k |-> "time", t |-> IF bad THEN [c EXCEPT !.mi = 60] ELSE c]
      [] t.k \in {"timestamp", "precision_timestamp"} -> [k |-> "ts", t |-> GClockP(bad, FALSE, PrecP(t))]
      [] t.k \in {"timestamp_tz", "precision_timestamp_tz"} -> [k |-> "tstz", t |-> GClockP(bad, TRUE, PrecP(t))]
      [] t.k = "interval_year" -> LET y == Pick(<<0, 1, 10, 2147483647>>) m == Pick(<<0, 5, 11, 30>>) b == RE(1..3) IN
            IF bad THEN [k |-> "str", ps |-> <<<<"P2147483648Y", "", 0>>>>] ELSE [k |-> "ym", v |-> [hasy |-> b # 1, y |-> y, hasm |-> b # 2, m |-> m, good |-> TRUE]]
      [] t.k = "interval_day" -> IF bad THEN [k |-> "str", ps |-> <<<<"P2147483648D", "", 0>>>>] ELSE [k |-> "ds", v |-> GDs(0)]
      [] t.k = "list" -> LET m == RE(0..3) IN IF bad THEN [k |-> "list", es |-> <<GLit(t.c[1], TRUE, TRUE, 0)>>] ELSE [k |-> "list", es |-> TLCEval([j \in 1..m |-> GLit(t.c[1], FALSE, TRUE, 0)])]
(* elements of lists must be lists or plain; a null list element of a nested list is written null *)
GArg(bad, enum) ==
    IF ~bad /\ enum /\ Chance(1, 10) THEN LET w == Pick(<<"YEAR", "Foo_1", "lower">>) IN [l |-> [k |-> "enum", w |-> w], y |-> [name |-> Pick(Names("enum")), t |-> EnumT]]
    ELSE LET bt == TLCEval(bad /\ Chance(1, 4)) y == TLCEval(IF Chance(1, 6) THEN GWT("list", FALSE) ELSE GWT(Pick(IF bt THEN <<"decimal", "precision_timestamp", "precision_time", "precision_timestamp_tz">> ELSE ArgKinds), bt))
             l == TLCEval(GLit(y.t, bad /\ ~bt, FALSE, 0)) l2 == TLCEval(IF bt /\ l.k = "null" THEN GLit(WithNull(y.t, "2"), FALSE, FALSE, 0) ELSE l) IN
         [l |-> l2, y |-> IF bad /\ l2.k = "null" THEN [y EXCEPT !.t = WithNull(@, "2")] ELSE y]
OptN == <<"overflow", "ROUNDING", "null_handling", "Spaces_Only", "my_opt", "z9">>
OptV == <<"ERROR", "saturate", "SILENT", "TIE_TO_EVEN", "NAN", "TRUNCATE", "ACCEPT_NULLS", "IGNORE_NULLS", "true", "null", "custom_1", "FLOOR">>
GOpts(x) == LET k == Pick(<<0, 0, 1, 2, 3>>) o == TLCEval(RE(1..6)) IN TLCEval([j \in 1..k |-> <<OptN[((o + j) % 6) + 1], Pick(OptV)>>])
Fns == <<"add", "f1", "concat", "regexp_replace", "or", "and", "truncate", "LIST_AGG", "_x", "$v", "a1_b2", "Or">>
GRes(bad) == LET r == RE(1..8) IN IF bad THEN [k |-> "val", a |-> GArg(TRUE, FALSE)] ELSE CASE r = 1 -> [k |-> "error"] [] r = 2 -> [k |-> "undefined"] [] OTHER -> [k |-> "val", a |-> GArg(FALSE, TRUE)]
GScalar(bad) ==
    LET k == TLCEval(Pick(<<1, 1, 2, 2, 3, 4>>)) w == TLCEval(IF bad THEN RE(0..k) ELSE -1) fn == Pick(Fns) as == TLCEval([j \in 1..k |-> GArg(j = w, TRUE)]) os == TLCEval(GOpts(0)) r == TLCEval(GRes(w = 0)) IN
    [form |-> "scalar", fn |-> fn, args |-> as, opts |-> os, res |-> r]
ColKinds == ArgKinds \o <<"binary", "uuid">>
NamesU == <<"uuid", "UUID">>
GCol(bad) == LET k == TLCEval(Pick(ColKinds)) IN IF k = "uuid" THEN [t |-> T0("uuid", "1"), name |-> Pick(NamesU), e |-> <<>>, bare |-> FALSE] ELSE GWT(k, FALSE)
GCell(t, bad) == IF t.k = "uuid" /\ ~bad THEN [k |-> "null", w |-> "null"] ELSE IF ~bad /\ Nul(t) = "2" /\ Chance(1, 8) THEN [k |-> "null", w |-> "null"] ELSE IF bad /\ t.k \in {"uuid", "binary", "string", "fixed_char", "fixed_binary"} THEN [k |-> "bool", w |-> "true", v |-> TRUE] ELSE GLit(t, bad, TRUE, 0)
GUntyped(x) == LET r == RE(1..4) IN CASE r = 1 -> [k |-> "null", w |-> "null"] [] r = 2 -> GInt("i32", FALSE) [] r = 3 -> GStr(0) [] OTHER -> GFp("fp64", FALSE)
GSingle(bad) == LET y == TLCEval(GCol(0)) k == TLCEval(Pick(<<0, 1, 2, 3, 5>>)) w == TLCEval(IF bad THEN RE(0..k) ELSE -1)
                    cs == TLCEval([j \in 1..k |-> GCell(y.t, j = w)]) fn == Pick(Fns) os == TLCEval(GOpts(0)) r == TLCEval(GRes(w = 0)) IN
    [form |-> "single", fn |-> fn, cells |-> cs, y |-> y, opts |-> os, res |-> r]
GTable(form, bad) ==
    LET nc == TLCEval(RE(1..3)) nr == TLCEval(Pick(<<0, 1, 2, 2, 3>>)) cols == TLCEval([j \in 1..nc |-> GCol(0)])
        ka == TLCEval(Pick(<<0, 1, 2, 2, 3>>)) tbl == TLCEval(Pick(<<"t1", "Tbl", "_u">>))
        is == TLCEval([j \in 1..ka |-> IF Chance(1, 4) THEN 0 ELSE RE(1..nc)])
        cw == TLCEval(Pick(<<"col", "COL", "Col">>))
        as == TLCEval([j \in 1..ka |-> IF is[j] = 0 THEN [k |-> "lit", a |-> GArg(FALSE, TRUE)] ELSE [k |-> "col", i |-> is[j] - 1, tbl |-> tbl, colw |-> cw, y |-> cols[is[j]]]])
        used == {is[j] : j \in DOMAIN is} rows == TLCEval([r \in 1..nr |-> [j \in 1..nc |-> IF form = "define" \/ j \in used THEN GCell(cols[j].t, FALSE) ELSE GUntyped(0)]])
        fn == Pick(Fns) os == TLCEval(GOpts(0)) res == TLCEval(GRes(FALSE)) dw == Pick(<<"DEFINE", "define">>)
        c == [form |-> form, defw |-> dw, tbl |-> tbl, cols |-> IF form = "define" THEN cols ELSE <<>>, rows |-> rows, fn |-> fn, args |-> as, opts |-> os, res |-> res]
        f == TLCEval(RE(1..5)) IN
    IF ~bad THEN c ELSE
    CASE f = 1 /\ nr >= 2 -> [c EXCEPT !.rows[nr] = @ \o <<[k |-> "null", w |-> "null"]>>]
      [] f = 2 /\ nr >= 2 /\ nc >= 2 -> [c EXCEPT !.rows[nr] = Tail(@)]
      [] f = 3 /\ used \ {0} # {} /\ nr >= 1 -> LET j == CHOOSE j \in DOMAIN as : is[j] # 0 b == Pick(<<nc, nc + 1, 9, 2147483647>>) IN [c EXCEPT !.args[j].i = b]
      [] f = 4 /\ form = "define" /\ used \ {0} # {} -> LET j == CHOOSE j \in DOMAIN as : is[j] # 0 IN [c EXCEPT !.args[j].tbl = "other"]
      [] f = 5 /\ nr >= 1 /\ used \ {0} # {} -> LET j == CHOOSE j \in DOMAIN is : is[j] # 0 x == TLCEval(GCell(cols[is[j]].t, TRUE)) IN [c EXCEPT !.rows[1][is[j]] = x]
      [] OTHER -> [c EXCEPT !.res = GRes(TRUE)]
GAgg(bad) == LET r == RE(1..3) IN CASE r = 1 -> GSingle(bad) [] r = 2 -> GTable("compact", bad) [] OTHER -> GTable("define", bad)
Incls == <<"/extensions/functions_a.yaml", "/extensions/x.yaml", "extension:acme:x", "/extensions/set_b.yaml">>
Descs == <<"basic", "a // b", "'quoted' 1::i8", "f1(1::i8) = 1::i8", "# two", "sp  ace">>
GFile(bad) ==
    LET kd == TLCEval(Pick(<<"scalar", "scalar", "aggregate">>)) ng == TLCEval(Pick(<<1, 1, 2, 3>>)) nc == TLCEval([g \in 1..ng |-> Pick(<<1, 1, 2>>)]) bg == TLCEval(IF bad THEN RE(1..ng) ELSE 0)
        bc == TLCEval(IF bad THEN RE(1..nc[bg]) ELSE 0) ver == Pick(<<"v1.0", "V1", "v2.13">>) inc == TLCEval(Pick(Incls)) inc2 == Chance(1, 6) dp == Chance(1, 4) IN
    [kind |-> kd, ver |-> ver, incl |-> <<inc>> \o OptF(inc2, "/extensions/other.yaml"), deps |-> OptF(dp, "/extensions/dep.yaml"),
     groups |-> TLCEval([g \in 1..ng |-> LET d == Pick(Descs) hd == g > 1 \/ Chance(1, 2) IN
        [hasd |-> hd, descv |-> d, desc |-> d \o (IF Chance(1, 5) THEN " " ELSE ""),
         cases |-> TLCEval([c \in 1..nc[g] |-> LET b == (g = bg /\ c = bc) IN IF kd = "scalar" THEN GScalar(b) ELSE GAgg(b)])]])]

(* ---------------- tokens to text ---------------- *)
Gap(x) == Pick(<<" ", " ", " ", " ", " ", "  ", "\n", "\t", " // c 'x ( \n", "\r\n", "\n//\n">>)
Sep(a, b) == IF IsDesc(b) THEN "\n" ELSE IF IsDesc(a) THEN Pick(<<"", "", "\n", " ", "// c\n">>) ELSE
    IF (a \in Punct \/ b \in Punct) /\ Chance(2, 3) THEN "" ELSE Gap(0)
Text(ts) == Flat(TLCEval([j \in DOMAIN ts |-> IF j = 1 THEN <<ts[1]>> ELSE <<Sep(ts[j - 1], ts[j]), ts[j]>>])) \o <<Pick(<<"", "\n", " \n", " // end">>)>>
NH(f) == Len(Header(f))
(* positions after the header of tokens in S *)
Pos(ts, h, S) == SelectSeq([j \in DOMAIN ts |-> j], LAMBDA j : j > h /\ ts[j] \in S)
Del(ts, j) == SubSeq(ts, 1, j - 1) \o SubSeq(ts, j + 1, Len(ts))
Ins(ts, j, x) == SubSeq(ts, 1, j) \o <<x>> \o SubSeq(ts, j + 1, Len(ts))
TypeWords == {Names(k)[j] : k \in {"i8", "i16", "i32", "i64", "fp32", "fp64", "bool", "string"}, j \in 1..2}
(* forms of arguments that the grammar knows and the reader does not *)
Unread == <<<<"'P1Y2M3DT4H5M6.7S'", "::", "icompound", "<", "6", ">">>, <<"'P1Y2M3DT4H5M6S'", "::", "INTERVAL_COMPOUND", "?", "<", "3", ">">>,
            <<"(", "x", "->", "add", "(", "x", ",", "1", "::", "i8", ")", ")", "::", "func", "<", "i8", "->", "i8", ">">>, <<"x">>>>
Flaw(f, ts) ==
    IF f.kind = "scalar" /\ Chance(1, 6) THEN LET j == CHOOSE j \in DOMAIN ts : j > NH(f) /\ ts[j] = "(" /\ \A i \in NH(f) + 1..j - 1 : ts[i] # "(" IN
        <<"unread", SubSeq(ts, 1, j) \o Pick(Unread) \o <<",">> \o SubSeq(ts, j + 1, Len(ts))>> ELSE
    LET h == NH(f) k == RE(1..8) j0 == TLCEval(Pick(Pos(ts, h, {"(", ")", "=", "::"}))) IN
    CASE k = 1 -> <<"drop " \o ts[j0], Del(ts, j0)>>
      [] k = 2 -> <<"double " \o ts[j0], Ins(ts, j0, ts[j0])>>
      [] k = 3 -> LET j == RE(h..Len(ts)) c == Pick(<<"@", "~7e;", "&", "`", ";", "^", "\\">>) IN <<"character", Ins(ts, j, c)>>
      [] k = 4 -> LET j == Pick(Pos(ts, h, {"(", "::", "="})) IN <<"cut", SubSeq(ts, 1, j)>>
      [] k = 5 -> LET j == Pick(<<1, 2, 3, 4, 5, 6, 7, 8>>) IN <<"header", Del(ts, j)>>
      [] k = 6 -> <<"no cases", SubSeq(ts, 1, h)>>
      [] k = 7 -> <<"lone description", ts \o <<"# last\n">>>>
      [] OTHER -> LET q == Pos(ts, h, TypeWords) IN IF q = <<>> THEN <<"drop " \o ts[j0], Del(ts, j0)>> ELSE LET j == Pick(q) w == Pick(<<"i9", "fp16", "struct", "varchar", "dec<5>", "foo", "map<i8,i8>", "5">>) IN <<"type " \o w, [ts EXCEPT ![j] = w]>>
WrongKind(f) == [f EXCEPT !.kind = IF @ = "scalar" THEN "aggregate" ELSE "scalar"]
GScn(m) ==
    LET w == m % 8 bad == TLCEval(w \in {1, 2}) f0 == TLCEval(GFile(bad)) via == Pick(<<"string", "string", "fs">>) IN
    IF w = 0 /\ Chance(1, 10) THEN [id |-> m, op |-> "flaw", tag |-> "reader", f |-> f0, text |-> Text(TokFile(f0)), via |-> "cut"]     \* reading fails once everything is read
    ELSE IF w = 0 THEN LET x == TLCEval(Flaw(f0, TokFile(f0))) IN [id |-> m, op |-> "flaw", tag |-> x[1], f |-> f0, text |-> Text(x[2]), via |-> via]
    ELSE LET f == TLCEval(IF w = 3 /\ Chance(1, 4) THEN WrongKind(f0) ELSE f0) IN
         [id |-> m, op |-> "file", tag |-> IF bad THEN "bad" ELSE "good", f |-> f, text |-> Text(TokFile(f)), via |-> via]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: a file written without flaw has a meaning for every case, and it is as long as its cases. *)
Law == (sc.op = "file" /\ sc.tag = "good" /\ sc.id % 8 # 3) => LET s == SemFile(sc.f) IN ~AnyBad(s) /\ Len(s) = FoldLeft(LAMBDA a, g : a + Len(g.cases), 0, sc.f.groups)
=============================================================================
