------------------------------ MODULE TestFile ------------------------------
(* Function test-case files. A file is a syntax tree of records; Toks is its text as tokens, SemCase what a case means.
   A literal is [k |-> kind, ...] with the text it is written as; a written type is [t |-> type, name |-> spelling, e |-> element]. *)
EXTENDS Numeric, Types

(* ---------------- texts ---------------- *)
RECURSIVE TokT(_)
TokT(y) == <<y.name>> \o OptF(Nul(y.t) = "1", "?") \o
    (IF y.t.k = "list" THEN <<"<">> \o TokT(y.e[1]) \o <<">">>
     ELSE IF y.t.k = "decimal" THEN (IF y.bare THEN <<>> ELSE <<"<", y.t.p[3], ",", y.t.p[4], ">">>)
     ELSE IF Len(y.t.p) = 3 THEN <<"<", y.t.p[3], ">">> ELSE <<>>)
CommaSep(ss) == Flat([j \in DOMAIN ss |-> IF j = 1 THEN ss[j] ELSE <<",">> \o ss[j]])
YmText(v) == "P" \o (IF v.hasy THEN ToString(v.y) \o "Y" ELSE "") \o (IF v.hasm THEN ToString(v.m) \o "M" ELSE "")
Quoted(s) == "'" \o s \o "'"
LitText(l) ==
    CASE l.k \in {"word", "bool", "null", "enum"} -> l.w
      [] l.k = "int" -> l.sign \o DigS(l.dg)
      [] l.k = "num" -> Render(l.t)
      [] l.k = "str" -> Quoted(JoinStr([j \in DOMAIN l.ps |-> l.ps[j][1]], ""))
      [] l.k = "date" -> Quoted(DateText(l.t))
      [] l.k = "time" -> Quoted(TimeText(l.t))
      [] l.k \in {"ts", "tstz"} -> Quoted(TsText(l.t))
      [] l.k = "ym" -> Quoted(YmText(l.v))
      [] l.k = "ds" -> Quoted(IvText(l.v))
RECURSIVE TokL(_)
TokL(l) == IF l.k = "list" THEN <<"[">> \o CommaSep([j \in DOMAIN l.es |-> TokL(l.es[j])]) \o <<"]">> ELSE <<LitText(l)>>
TokA(a) == TokL(a.l) \o <<"::">> \o (IF a.l.k = "enum" THEN <<a.y.name>> ELSE TokT(a.y))
TokO(os) == IF os = <<>> THEN <<>> ELSE <<"[">> \o CommaSep([j \in DOMAIN os |-> <<os[j][1], ":", os[j][2]>>]) \o <<"]">>
TokR(r) == CASE r.k = "error" -> <<"<!ERROR>">> [] r.k = "undefined" -> <<"<!UNDEFINED>">> [] OTHER -> TokA(r.a)
TokRow(row) == <<"(">> \o CommaSep([j \in DOMAIN row |-> TokL(row[j])]) \o <<")">>
TokRows(rows) == <<"(">> \o CommaSep([j \in DOMAIN rows |-> TokRow(rows[j])]) \o <<")">>
ColName(g) == g.colw \o ToString(g.i)
TokG(c, g) == IF g.k = "lit" THEN TokA(g.a) ELSE IF c.form = "define" THEN <<g.tbl, ".", ColName(g)>> ELSE <<ColName(g), "::">> \o TokT(g.y)
TokCase(c) ==
    (CASE c.form = "scalar" -> <<c.fn, "(">> \o CommaSep([j \in DOMAIN c.args |-> TokA(c.args[j])])
       [] c.form = "single" -> <<c.fn, "(">> \o TokRow(c.cells) \o <<"::">> \o TokT(c.y)
       [] OTHER -> (IF c.form = "define" THEN <<c.defw, c.tbl, "(">> \o CommaSep([j \in DOMAIN c.cols |-> TokT(c.cols[j])]) \o <<")", "=">> ELSE <<>>)
                   \o TokRows(c.rows) \o <<c.fn, "(">> \o CommaSep([j \in DOMAIN c.args |-> TokG(c, c.args[j])]))
    \o <<")">> \o TokO(c.opts) \o <<"=">> \o TokR(c.res)
Header(f) == <<"###", IF f.kind = "scalar" THEN "SUBSTRAIT_SCALAR_TEST" ELSE "SUBSTRAIT_AGGREGATE_TEST", ":", f.ver, "###", "SUBSTRAIT_INCLUDE", ":">>
    \o CommaSep([j \in DOMAIN f.incl |-> <<Quoted(f.incl[j])>>])
    \o Flat([j \in DOMAIN f.deps |-> <<"###", "SUBSTRAIT_DEPENDENCY", ":", Quoted(f.deps[j])>>])
(* A description is one token: it takes the rest of its line. *)
TokFile(f) == Header(f) \o Flat([g \in DOMAIN f.groups |-> OptF(f.groups[g].hasd, "# " \o f.groups[g].desc \o "\n") \o Flat([c \in DOMAIN f.groups[g].cases |-> TokCase(f.groups[g].cases[c])])])
IsDesc(t) == Len(t) > 2 /\ SubSeq(t, 1, 2) = "# "
Punct == {"(", ")", "[", "]", ",", "::", ":", "=", "<", ">", "?", "."}

(* ---------------- values ---------------- *)
Bad == Nd("bad", <<>>, <<>>)
IsBad(v) == v.k = "bad"
RECURSIVE DLe(_, _)
DLe(a, b) == IF a = <<>> THEN TRUE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ DLe(Tail(a), Tail(b)))
DigLe(a0, b) == LET a == Strip(a0) IN Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DLe(a, b))
IntLim(k, neg) == LET z == IF neg THEN 8 ELSE 7 IN
    CASE k = "i8" -> <<1, 2, z>> [] k = "i16" -> <<3, 2, 7, 6, z>> [] k = "i32" -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, z>>
      [] k = "i64" -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, z>>
IntV(l, k) == IF l.k # "int" THEN Bad ELSE IF DigLe(l.dg, IntLim(k, l.sign = "-")) THEN
    Nd("int", <<IF Strip(l.dg) = <<>> THEN "0" ELSE (IF l.sign = "-" THEN "-" ELSE "") \o DigS(Strip(l.dg))>>, <<>>) ELSE Bad
NumOf(l) == IF l.k = "int" THEN Num(l.sign = "-", l.dg, 0) ELSE TextNum(l.t)
Signed(l) == IF l.k = "int" THEN l.sign = "-" ELSE l.t.sign = "-"
FpMax(k) == IF k = "fp32" THEN <<3, 4, 0, 2, 8, 2, 3, 4>> ELSE <<1, 7, 9, 7, 6, 9, 3, 1, 3, 4, 8, 6, 2, 3, 1>>
FpTop(k) == IF k = "fp32" THEN 39 ELSE 309
FpFits(u, k) == LET e == Len(u.dg) + u.x m == FpMax(k) IN
    e < FpTop(k) \/ (e = FpTop(k) /\ DLe(SubSeq(u.dg \o Zeros(20), 1, Len(m)), m))
FpV(l, k) ==
    IF l.k = "word" THEN Nd("fp", <<l.v>>, <<>>) ELSE IF l.k \notin {"int", "num"} THEN Bad ELSE
    LET u == NumOf(l) IN IF u.dg = <<>> THEN Nd("fp", <<IF Signed(l) THEN "-0" ELSE "0">>, <<>>)
    ELSE IF FpFits(u, k) THEN Nd("fp", <<(IF u.neg THEN "-" ELSE "") \o DigS(u.dg) \o "e" \o ToString(u.x)>>, <<>>) ELSE Bad
DecV(l, t) ==
    IF l.k \notin {"int", "num"} THEN Bad ELSE
    LET u == NumOf(l) p == atoi(t.p[3]) s == atoi(t.p[4]) IN
    IF ValidPS(p, s) /\ Holds(u, p, s) THEN LET d == DigS(Coef(u, s)) IN Nd("dec", <<(IF u.neg THEN "-" ELSE "") \o (IF d = "" THEN "0" ELSE d)>>, <<>>) ELSE Bad
StrOf(l) == JoinStr([j \in DOMAIN l.ps |-> l.ps[j][2]], "")
StrLen(l) == FoldLeft(LAMBDA a, x : a + x[3], 0, l.ps)
InstNode(i) == Nd("inst", <<ToString(i.d), ToString(i.s), ToString(i.n)>>, <<>>)
TimeInst(t) == [d |-> 0, s |-> t.h * 3600 + t.mi * 60 + t.s, n |-> FracNanos(t.f)]
AtP(i, p) == IF p < 0 \/ p > 9 \/ ~Expressible(i, p) THEN Bad ELSE InstNode(AtPrec(i, p))
PrecP(t) == IF Len(t.p) = 3 THEN atoi(t.p[3]) ELSE 6
DsV(l, p2) ==
    LET v == l.v p == IF v.hass THEN IvPrec(v.f) ELSE 6 u == IF v.hass THEN FracNanos(v.f) \div P10(9 - p) ELSE 0
        s == (IF v.hash THEN v.h * 3600 ELSE 0) + (IF v.hasm THEN v.mi * 60 ELSE 0) + (IF v.hass THEN v.s ELSE 0)
        u2 == IF p2 >= p THEN u * P10(p2 - p) ELSE u \div P10(p - p2) IN
    Nd("ds", <<ToString(IF v.hasd THEN v.d ELSE 0), ToString(s), ToString(u2)>>, <<>>)
Want(l, ks) == l.k \in ks
(* The value of literal l written where type t is expected; Bad when there is none. *)
RECURSIVE ValueOf(_, _)
ValueOf(l, t) ==
    IF l.k = "null" THEN IF Nul(t) = "1" THEN Nd("null", <<>>, <<>>) ELSE Bad ELSE
    CASE t.k = "bool" -> IF l.k = "bool" THEN Nd("bool", <<IF l.v THEN "true" ELSE "false">>, <<>>) ELSE Bad
      [] t.k \in {"i8", "i16", "i32", "i64"} -> IntV(l, t.k)
      [] t.k \in {"fp32", "fp64"} -> FpV(l, t.k)
      [] t.k = "decimal" -> DecV(l, t)
      [] t.k \in {"string", "binary", "fixed_char", "fixed_binary"} -> IF l.k = "str" THEN Nd("text", <<StrOf(l)>>, <<>>) ELSE Bad
      [] t.k = "varchar" -> IF l.k = "str" /\ StrLen(l) <= atoi(t.p[3]) THEN Nd("text", <<StrOf(l)>>, <<>>) ELSE Bad
      [] t.k = "date" -> IF l.k = "date" /\ ValidDate(l.t.y, l.t.m, l.t.d) THEN InstNode([d |-> DaysOf(l.t.y, l.t.m, l.t.d), s |-> 0, n |-> 0]) ELSE Bad
      [] t.k \in {"time", "precision_time"} -> IF l.k = "time" /\ ValidTime(l.t.h, l.t.mi, l.t.s) THEN AtP(TimeInst(l.t), PrecP(t)) ELSE Bad
      [] t.k \in {"timestamp", "precision_timestamp"} -> IF l.k = "ts" /\ TsValid(l.t) THEN AtP(TsInst(l.t), PrecP(t)) ELSE Bad
      [] t.k \in {"timestamp_tz", "precision_timestamp_tz"} -> IF l.k = "tstz" /\ TsValid(l.t) THEN AtP(TsInst(l.t), PrecP(t)) ELSE Bad
      [] t.k = "interval_year" -> IF l.k = "ym" /\ l.v.good THEN Nd("ym", <<ToString(IF l.v.hasy THEN l.v.y ELSE 0), ToString(IF l.v.hasm THEN l.v.m ELSE 0)>>, <<>>) ELSE Bad
      [] t.k = "interval_day" -> IF l.k = "ds" /\ PrecP(t) \in 0..9 THEN DsV(l, PrecP(t)) ELSE Bad
      [] t.k = "list" -> IF l.k # "list" THEN Bad ELSE
            LET vs == [j \in DOMAIN l.es |-> ValueOf(l.es[j], t.c[1])] IN
            IF \E j \in DOMAIN vs : IsBad(vs[j]) THEN Bad ELSE Nd("list", <<>>, [j \in DOMAIN vs |-> Nd("cell", <<>>, <<t.c[1], vs[j]>>)])
      [] OTHER -> Bad
(* in a column without declared type a value stands for its text *)
Untyped(l) ==
    CASE l.k = "null" -> Nd("null", <<>>, <<>>)
      [] l.k \in {"int", "num", "word"} -> Nd("text", <<LitText(l)>>, <<>>)
      [] l.k = "str" -> Nd("text", <<StrOf(l)>>, <<>>)
      [] l.k = "bool" -> Nd("bool", <<IF l.v THEN "true" ELSE "false">>, <<>>)

(* ---------------- meaning ---------------- *)
EnumT == Nd("enum", <<>>, <<>>)
LitNode(vtext, t, v) == Nd("lit", <<vtext>>, <<t, t, v>>)
SemA(a) == IF a.l.k = "enum" THEN LitNode(LitText(a.l), EnumT, Nd("enum", <<a.l.w>>, <<>>)) ELSE
    LET v == ValueOf(a.l, a.y.t) IN IF IsBad(v) THEN Bad ELSE LitNode(IF a.l.k = "list" THEN "" ELSE LitText(a.l), a.y.t, v)
SemR(r) == IF r.k = "val" THEN SemA(r.a) ELSE Nd(r.k, <<>>, <<>>)
ColT(c, j) == IF c.form = "define" THEN c.cols[j].t ELSE
    LET u == SelectSeq(c.args, LAMBDA g : g.k = "col" /\ g.i = j - 1) IN IF u = <<>> THEN NilNode ELSE u[1].y.t
Width(c) == IF c.form = "define" THEN Len(c.cols) ELSE IF c.rows # <<>> THEN Len(c.rows[1]) ELSE
    FoldLeft(LAMBDA a, g : IF g.k = "col" THEN Max2(a, g.i + 1) ELSE a, 0, c.args)
(* a null makes its column nullable: a column may hold values of a required type and typed nulls *)
HasNull(ls) == \E j \in DOMAIN ls : ls[j].k = "null"
NullIf(b, t) == IF b /\ ~IsNil(t) THEN WithNull(t, "1") ELSE t
ColNull(c, j) == \E r \in DOMAIN c.rows : j <= Len(c.rows[r]) /\ c.rows[r][j].k = "null"
ColT2(c, j) == NullIf(ColNull(c, j), ColT(c, j))
Cell(l, t) == IF ~IsNil(t) /\ l.k = "null" THEN Nd("cell", <<>>, <<WithNull(t, "1"), Nd("null", <<>>, <<>>)>>) ELSE IF IsNil(t) THEN Nd("cell", <<>>, <<NilNode, Untyped(l)>>) ELSE LET v == ValueOf(l, t) IN IF IsBad(v) THEN Bad ELSE Nd("cell", <<>>, <<t, v>>)
SemG(c, g) == IF g.k = "lit" THEN LET a == SemA(g.a) IN IF IsBad(a) THEN Bad ELSE Nd("aa", <<"lit", "", "", "0">>, <<NilNode, a>>)
    ELSE IF g.i >= Width(c) \/ (c.form = "define" /\ g.tbl # c.tbl) THEN Bad
    ELSE Nd("aa", <<"col", IF c.form = "define" THEN g.tbl ELSE "", ColName(g), ToString(g.i)>>, <<IF c.form = "define" THEN ColT2(c, g.i + 1) ELSE ColT(c, g.i + 1), NilNode>>)
Less(a, b) == a[1] < b[1]
CaseNode(f, desc, c, tbl, args, agg, res, cols, ctypes) ==
    Nd("case", <<f.incl[1], desc, c.fn, f.kind, tbl>>,
       <<Msg("args", args), Msg("agg", agg), res, Msg("opts", [j \in DOMAIN c.opts |-> Nd("o", c.opts[j], <<>>)]), Msg("cols", [j \in DOMAIN cols |-> Msg("col", cols[j])]), Msg("coltypes", ctypes)>>)
AnyBad(s) == \E j \in DOMAIN s : IsBad(s[j])
SemCase(f, desc, c) ==
    LET res == SemR(c.res) IN
    CASE c.form = "scalar" -> LET as == [j \in DOMAIN c.args |-> SemA(c.args[j])] IN
            IF f.kind # "scalar" \/ AnyBad(as) \/ IsBad(res) \/ as = <<>> THEN Bad ELSE CaseNode(f, desc, c, "", as, <<>>, res, <<>>, <<>>)
      [] c.form = "single" -> LET cs == [j \in DOMAIN c.cells |-> Cell(c.cells[j], c.y.t)] ct == NullIf(HasNull(c.cells), c.y.t) lt == Nd("list", <<"2", "0">>, <<ct>>) IN
            IF f.kind # "aggregate" \/ AnyBad(cs) \/ IsBad(res) THEN Bad ELSE
            CaseNode(f, desc, c, "", <<>>, <<Nd("aa", <<"col", "", "", "0">>, <<ct, Nd("lit", <<"">>, <<ct, lt, Nd("list", <<>>, cs)>>)>>)>>, res, <<>>, <<>>)
      [] OTHER ->
            LET w == Width(c) gs == [j \in DOMAIN c.args |-> SemG(c, c.args[j])]
                ragged == \E j \in DOMAIN c.rows : Len(c.rows[j]) # w IN
            IF f.kind # "aggregate" \/ AnyBad(gs) \/ IsBad(res) \/ ragged THEN Bad ELSE
            LET cols == [x \in 1..w |-> [j \in DOMAIN c.rows |-> Cell(c.rows[j][x], ColT(c, x))]] IN
            IF \E x \in DOMAIN cols : AnyBad(cols[x]) THEN Bad ELSE
            CaseNode(f, desc, c, IF c.form = "define" THEN c.tbl ELSE "", <<>>, gs, res, cols, [x \in 1..w |-> ColT2(c, x)])
SemFile(f) == Flat([g \in DOMAIN f.groups |-> [c \in DOMAIN f.groups[g].cases |-> SemCase(f, IF f.groups[g].hasd THEN f.groups[g].descv ELSE "", f.groups[g].cases[c])]])

(* ---------------- identity and printing ---------------- *)
ShortK == ("string" :> "str") @@ ("binary" :> "vbin") @@ ("timestamp" :> "ts") @@ ("timestamp_tz" :> "tstz") @@ ("interval_year" :> "iyear")
    @@ ("interval_day" :> "iday") @@ ("fixed_char" :> "fchar") @@ ("varchar" :> "vchar") @@ ("fixed_binary" :> "fbin") @@ ("decimal" :> "dec")
    @@ ("precision_time" :> "pt") @@ ("precision_timestamp" :> "pts") @@ ("precision_timestamp_tz" :> "ptstz") @@ ("enum" :> "req")
ShortT(t) == IF t.k \in DOMAIN ShortK THEN ShortK[t.k] ELSE t.k
ArgT(n) == IF n.k = "aa" THEN IF n.p[1] = "lit" THEN n.c[2].c[1] ELSE n.c[1] ELSE n.c[1]
CArgs(c) == c.c[1].c \o c.c[2].c
Key(c) == c.p[3] \o ":" \o JoinStr([j \in DOMAIN CArgs(c) |-> ShortT(ArgT(CArgs(c)[j]))], "_")
(* Types whose values are not printed in full (times of day and instants of plain types are: micros). *)
LossyK == {"binary", "fixed_binary", "timestamp_tz", "precision_timestamp_tz", "precision_timestamp", "precision_time", "time", "timestamp", "uuid"}
RECURSIVE Lossy(_)
Lossy(n) == n.k \in LossyK \/ \E j \in DOMAIN n.c : Lossy(n.c[j])
(* A table printed without its definition: its columns are typed by the arguments alone. *)
AllTyped(c) == \A j \in DOMAIN c.c[6].c : \E x \in DOMAIN c.c[2].c : c.c[2].c[x].p[1] = "col" /\ c.c[2].c[x].p[4] = ToString(j - 1)
Data(c) == IF c.p[4] = "scalar" THEN Nd("err", <<>>, <<>>) ELSE IF c.c[5].c # <<>> THEN c.c[5]
    ELSE IF c.c[2].c # <<>> /\ c.c[2].c[1].c[2].k = "lit" /\ c.c[2].c[1].p[1] = "col" THEN Msg("cols", <<Msg("col", c.c[2].c[1].c[2].c[3].c)>>) ELSE Nd("any", <<>>, <<>>)
(* a column of required values and nulls, printed with its nullable type: its values read as nullable ones *)
Mixed(c) == LET ds == Data(c) IN ds.k = "cols" /\ c.p[5] \o (IF c.c[5].c = <<>> THEN "single" ELSE "") # "" /\
    \E x \in DOMAIN ds.c : (\E j \in DOMAIN ds.c[x].c : ds.c[x].c[j].c[2].k = "null") /\ (\E j \in DOMAIN ds.c[x].c : LET u == ds.c[x].c[j].c[1] IN ~IsNil(u) /\ Nul(u) = "2")
RECURSIVE NoText(_)
NoText(n) == LET m == [n EXCEPT !.c = [j \in DOMAIN n.c |-> NoText(n.c[j])]] IN
    IF n.k = "lit" THEN [m EXCEPT !.p = <<>>] ELSE IF n.k = "case" THEN [m EXCEPT !.p[5] = ""] ELSE IF n.k = "aa" THEN [m EXCEPT !.p[2] = "", !.p[3] = ""] ELSE m
=============================================================================
