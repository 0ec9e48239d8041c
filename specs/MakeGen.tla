------------------------------- MODULE MakeGen -------------------------------
EXTENDS Make
VARIABLES n, sc
Plain == <<"i32", "i32", "i64", "bool", "string", "i8">>
ArgT(x) == IF Chance(2, 3) THEN T0(Pick(Plain), Pick(<<"1", "2", "2">>))
           ELSE IF Chance(1, 2) THEN Nd("decimal", <<Pick(<<"1", "2">>), "0", Pick(<<"10", "38">>), Pick(<<"0", "2">>)>>, <<>>)
           ELSE IF Chance(1, 2) THEN Nd("list", <<Pick(<<"1", "2">>), "0">>, <<T0(Pick(Plain), Pick(<<"1", "2">>))>>)
           ELSE IF Chance(1, 2) THEN Nd("user_defined", <<Pick(<<"1", "2">>), "0", Pick(<<"1", "1", "2">>)>>, <<>>) ELSE GLT(Pick(LitKinds), 1)
Lp(t) == [k |-> "lit", v |-> TLCEval(GLitOf(t, 1))]
RECURSIVE Fixable(_)
Fixable(t) == In(t.k, LitKinds) /\ t.k # "user_defined" /\ (\A j \in DOMAIN t.c : Fixable(t.c[j])) /\ (t.k \in {"fixed_char", "fixed_binary"} => t.p[3] \in {"0", "1", "2", "3", "5"}) /\ (t.k \in {"struct", "list", "map"} => Size(t) <= 4)
(* append a part of type t; returns the graph, the part being its last *)
RECURSIVE AddT(_, _)
AddT(b, t) ==
    CASE t.k = "enum" -> Append(b, [k |-> "enum", val |-> Pick(<<"X", "Y">>)])
      [] t.k = "func" -> LET b1 == TLCEval(IF Len(t.c) = 2 /\ t.c[1] = t.c[2] /\ Chance(2, 3) THEN Append(b, [k |-> "pref", s |-> 0, p |-> <<Seg("f", 0, NilNode)>>]) ELSE AddT(b, Last(t.c))) IN
                         Append(b1, [k |-> "lam", ts |-> SubSeq(t.c, 1, Len(t.c) - 1), of |-> Len(b1)])
      [] OTHER -> IF Fixable(t) /\ Chance(1, 2) THEN Append(b, Lp(t)) ELSE Append(b, [k |-> "param", t |-> t, s |-> RE(0..3)])
RECURSIVE AddAll(_, _, _, _)
\* parts of the types ts, existing ones at times: [b, js]
AddAll(b, ts, js, sch) ==
    IF ts = <<>> THEN [b |-> b, js |-> js] ELSE
    LET t == Head(ts) have == TLCEval(IF Chance(1, 2) THEN {j \in DOMAIN b : b[j].k # "enum" /\ (LET r == Mk(b, j, <<>>, sch) IN r.st = "ok" /\ r.f # "agg" /\ r.t = NormT(t) /\ ~(b[j].k \in {"fn", "cust"} /\ b[j].kind = "aggregate"))} ELSE {}) IN
    IF have # {} THEN AddAll(b, Tail(ts), Append(js, RE(have)), sch)
    ELSE LET b1 == TLCEval(AddT(b, t)) IN AddAll(b1, Tail(ts), Append(js, Len(b1)), sch)
IsAgg(b, j) == b[j].k \in {"fn", "cust"} /\ b[j].kind = "aggregate"
Usable(b) == {j \in DOMAIN b : ~IsAgg(b, j) /\ b[j].k # "enum"}
GOptsR(x) == TLCEval([j \in 1..Pick(<<0, 0, 0, 1, 2>>) |-> <<Pick(<<"overflow", "rounding">>), TLCEval([i \in 1..RE(1..2) |-> Pick(<<"ERROR", "SILENT">>)])>>])
GBoundR(x) == LET w == RE(1..5) IN IF w = 1 THEN NilNode ELSE LET y == TLCEval(GBound("b")) IN y
SortSafe(b) == {j \in DOMAIN b : b[j].k \in {"lit", "param"}}
GSorts(b) == IF SortSafe(b) = {} THEN <<>> ELSE TLCEval([j \in 1..RE(0..2) |-> <<RE(SortSafe(b)), Pick(Directions)>>])
GParts(b) == IF Usable(b) = {} THEN <<>> ELSE TLCEval([j \in 1..RE(0..2) |-> RE(Usable(b))])
MutJs(b, js) ==     \* argument lists next to a fitting one
    LET w == RE(1..9) k == Len(js) us == Usable(b) IN
    CASE w = 1 /\ k > 0 -> SubSeq(js, 1, k - 1)
      [] w = 2 /\ us # {} -> Append(js, RE(us))
      [] w = 3 /\ k > 0 /\ us # {} -> [js EXCEPT ![RE(1..k)] = RE(us)]
      [] w = 4 /\ k > 1 -> Reverse(js)
      [] OTHER -> js
GFn(b, sch) ==
    LET d == TLCEval(Pick(FD1)) env == TLCEval(LET a1 == TLCEval(ArgT(0)) a2 == TLCEval(ArgT(0)) IN
                [ints |-> [P |-> Pick(<<"10", "38">>), S |-> Pick(<<"0", "2">>)], anys |-> [any1 |-> a1, any2 |-> a2], disc |-> d.null = "DISCRETE"])
        m == IF d.var = <<>> THEN Len(d.params) ELSE Max2(0, Len(d.params) - 1 + RE(d.var[1]..(d.var[1] + 2)))
        t0 == TLCEval([j \in 1..m |-> FN!Inst(FN!ParamAt(d, j), env)])
        ts == TLCEval(IF d.var = <<>> \/ d.var[3] # "CONSISTENT" \/ Chance(1, 4) THEN t0 ELSE [j \in 1..m |-> IF j > Len(d.params) THEN t0[Len(d.params)] ELSE t0[j]])
        a == TLCEval(AddAll(b, ts, <<>>, sch)) js == TLCEval(MutJs(a.b, a.js)) w == RE(1..12)
        full == w <= 5 via == Pick(<<"builder", "builder", "new">>)
        kind == IF Chance(1, 10) THEN Pick(<<"scalar", "aggregate", "window">>) ELSE IF d.kind = "aggregate" /\ Chance(1, 3) THEN "window" ELSE d.kind
        wd == kind = "window" /\ via = "builder" so == TLCEval(IF kind = "scalar" \/ (kind = "window" /\ via = "new") THEN <<>> ELSE GSorts(a.b))
        ps == TLCEval(IF wd THEN GParts(a.b) ELSE <<>>) lo == TLCEval(IF wd THEN GBoundR(0) ELSE NilNode) hi == TLCEval(IF wd THEN GBoundR(0) ELSE NilNode) op == TLCEval(GOptsR(0)) IN
    Append(a.b, [k |-> "fn", kind |-> kind, u |-> IF Chance(1, 15) THEN Pick(<<UM, UO, "extension:test:none">>) ELSE d.u,
        name |-> IF w = 6 THEN d.name \o ":i32_i32" ELSE IF full THEN d.comp ELSE d.name, full |-> full \/ w = 6, via |-> via, opts |-> op, args |-> js,
        ph |-> IF kind = "scalar" THEN Phases[1] ELSE IF Chance(2, 3) THEN ToRes ELSE Pick(Phases), inv |-> IF kind = "scalar" THEN Invocations[1] ELSE Pick(Invocations),
        sorts |-> so, parts |-> ps, bt |-> IF wd THEN Pick(BoundsTypes) ELSE BoundsTypes[1], lo |-> lo, hi |-> hi])
GCust(b, sch) ==
    LET kind == Pick(<<"scalar", "aggregate", "window">>) us == Usable(b) js == TLCEval(IF us = {} THEN <<>> ELSE [j \in 1..RE(0..2) |-> RE(us)]) t == TLCEval(IF Chance(1, 6) THEN NilNode ELSE ArgT(0))
        so == TLCEval(IF kind = "aggregate" THEN GSorts(b) ELSE <<>>) op == TLCEval(GOptsR(0)) IN
    Append(b, [k |-> "cust", kind |-> kind, u |-> Pick(<<UM, "extension:test:own">>), name |-> Pick(<<"own:i32", "own:", "plus:any_any">>), full |-> TRUE, via |-> "new", opts |-> op, args |-> js, t |-> t,
        ph |-> IF kind = "scalar" THEN Phases[1] ELSE Pick(Phases), inv |-> IF kind = "scalar" THEN Invocations[1] ELSE Pick(Invocations), sorts |-> so, parts |-> <<>>, bt |-> BoundsTypes[1], lo |-> NilNode, hi |-> NilNode])
Near(t) == IF Chance(5, 6) THEN t ELSE IF Chance(1, 2) THEN WithNull(t, Pick(<<"1", "2">>)) ELSE ArgT(0)
GIf(b, sch) ==
    LET m == RE(1..3) t == TLCEval(ArgT(0)) fl == TLCEval(Chance(1, 3)) nr(x) == IF fl THEN Near(t) ELSE t
        ts == TLCEval(Flat([j \in 1..m |-> <<TLCEval(T0(IF Chance(1, 30) THEN "i8" ELSE "bool", Pick(<<"1", "2">>))), TLCEval(nr(j))>>]) \o <<TLCEval(nr(0))>>)
        a == TLCEval(AddAll(b, ts, <<>>, sch)) z == TLCEval(IF Chance(1, 8) THEN RE(1..Len(ts)) ELSE 0) at(j) == IF j = z THEN 0 ELSE a.js[j] IN
    Append(a.b, [k |-> "if", ifs |-> [j \in 1..m |-> <<at(2 * j - 1), at(2 * j)>>], els |-> at(Len(ts))])
RECURSIVE AddLits(_, _, _)
AddLits(b, ts, js) == IF ts = <<>> THEN [b |-> b, js |-> js] ELSE LET b1 == TLCEval(Append(b, Lp(Head(ts)))) IN AddLits(b1, Tail(ts), Append(js, Len(b1)))
GSw(b, sch) ==
    LET m == Pick(<<1, 1, 2, 2, 3, 0>>) t == TLCEval(ArgT(0)) kt == TLCEval(T0(Pick(Plain), "2")) fl == TLCEval(Chance(1, 3))
        nul(x) == WithNull(x, Pick(<<"1", "2">>))
        lt == TLCEval([j \in 1..m |-> IF fl /\ Chance(1, 5) THEN T0(Pick(Plain), "2") ELSE nul(kt)]) ls == TLCEval(AddLits(b, lt, <<>>))
        ts == TLCEval(<<TLCEval(nul(kt))>> \o [j \in 1..(m + 1) |-> IF fl THEN Near(t) ELSE nul(t)])
        a == TLCEval(AddAll(ls.b, ts, <<>>, sch)) z == TLCEval(IF Chance(1, 8) THEN RE(1..(m + 1)) ELSE 0) zl == TLCEval(IF m > 0 /\ Chance(1, 12) THEN RE(1..m) ELSE 0) at(j) == IF j = z THEN 0 ELSE a.js[j] IN
    Append(a.b, [k |-> "sw", match |-> at(1), cases |-> [j \in 1..m |-> <<IF j = zl THEN 0 ELSE ls.js[j], at(j + 1)>>], els |-> IF Chance(1, 3) THEN 0 ELSE a.js[m + 2]])
GList(b, sch) == LET t == TLCEval(ArgT(0)) a == TLCEval(AddAll(b, [j \in 1..RE(1..3) |-> t], <<>>, sch)) IN Append(a.b, [k |-> "list", of |-> a.js, nul |-> Chance(1, 2)])
Grow(b, sch) ==
    LET w == RE(1..25) us == Usable(b) IN
    CASE w <= 11 -> GFn(b, sch)
      [] w <= 13 -> GIf(b, sch)
      [] w <= 16 -> GSw(b, sch)
      [] w = 17 -> GList(b, sch)
      [] w = 18 -> GCust(b, sch)
      [] w = 19 /\ us # {} -> Append(b, [k |-> "cast", of |-> RE(us), t |-> TLCEval(ArgT(0)), fb |-> Pick(Fails)])
      [] w = 20 /\ us # {} -> Append(b, [k |-> "lam", of |-> RE(us), ts |-> TLCEval([j \in 1..RE(0..2) |-> IF Chance(1, 15) THEN NilNode ELSE T0(Pick(Plain), Pick(<<"1", "2">>))])])
      [] w = 21 -> Append(b, [k |-> "ref", p |-> TLCEval(LET p == TLCEval(GPath(sch, 3)) IN IF Chance(1, 5) THEN MutPath(sch, p) ELSE p)])
      [] w = 25 -> LET ns == {j \in us : LET r == Mk(b, j, <<>>, sch) IN r.st = "ok" /\ r.t.k \in {"struct", "list", "map"}}
                       b1 == TLCEval(IF ns # {} /\ Chance(1, 2) THEN b ELSE AddT(b, TLCEval(GLT(Pick(<<"struct", "list", "map">>), 2))))
                       of == TLCEval(IF b1 = b THEN RE(ns) ELSE Len(b1)) t == TLCEval(LET r == Mk(b1, of, <<>>, sch) IN r.t) IN
                   Append(b1, [k |-> "eref", of |-> of, p |-> TLCEval(LET p == TLCEval(GPath(t, 3)) IN IF Chance(1, 5) THEN MutPath(t, p) ELSE p)])
      [] w = 22 -> Append(b, [k |-> "pref", s |-> RE(0..1), p |-> <<Seg("f", RE(0..1), NilNode)>>])
      [] w = 23 -> Append(b, [k |-> "err"])
      [] OTHER -> Append(b, [k |-> "param", t |-> TLCEval(IF Chance(1, 4) THEN NilNode ELSE ArgT(0)), s |-> RE(0..3)])
RECURSIVE GrowN(_, _, _)
GrowN(b, sch, k) == IF k = 0 THEN b ELSE GrowN(TLCEval(Grow(b, sch)), sch, k - 1)
GSet(b) ==
    LET fs == {j \in DOMAIN b : b[j].k = "cast" \/ (b[j].k = "fn" /\ b[j].via = "builder")} IN
    IF fs = {} THEN <<>> ELSE
    LET i == RE(fs) x == b[i] below == {j \in Usable(b) : j < i} sb == {j \in SortSafe(b) : j < i}
        f == IF x.k = "cast" THEN "fb" ELSE Pick(IF x.kind = "scalar" THEN <<"args">> ELSE IF x.kind = "aggregate" THEN <<"args", "ph", "inv", "sorts">> ELSE <<"args", "ph", "inv", "sorts", "parts", "lo", "hi", "bt">>) IN
    <<[op |-> "set", i |-> i, f |-> f, v |->
        CASE f = "fb" -> Pick(Fails) [] f = "args" -> TLCEval(IF below = {} THEN <<>> ELSE IF Chance(1, 2) THEN MutJs(SubSeq(b, 1, i - 1), x.args) ELSE [j \in DOMAIN x.args |-> RE(below)])
          [] f = "ph" -> Pick(Phases) [] f = "inv" -> Pick(Invocations) [] f = "bt" -> Pick(BoundsTypes) [] f \in {"lo", "hi"} -> TLCEval(GBoundR(0))
          [] f = "sorts" -> TLCEval(IF sb = {} THEN <<>> ELSE [j \in 1..RE(0..2) |-> <<RE(sb), Pick(Directions)>>])
          [] f = "parts" -> TLCEval(IF below = {} THEN <<>> ELSE [j \in 1..RE(0..2) |-> RE(below)])]>>
Tops(b) == {j \in DOMAIN b : b[j].k # "enum"}
RECURSIVE GSteps(_, _)
GSteps(b, k) ==
    IF k = 0 THEN <<>> ELSE
    LET s == TLCEval(IF Chance(1, 4) THEN GSet(b) ELSE LET hi == {j \in Tops(b) : j + 6 > Len(b)} big == {j \in Tops(b) : b[j].k \in {"fn", "if", "sw", "cust", "list", "eref"}} IN
                <<[op |-> Pick(<<"build", "build", "arg">>), i |-> RE(IF big # {} /\ Chance(2, 3) THEN big ELSE IF hi # {} THEN hi ELSE Tops(b))]>>) IN
    s \o GSteps(IF s # <<>> /\ s[1].op = "set" THEN Put(b, s[1]) ELSE b, k - 1)
Decl(d) == [u |-> d.u, kind |-> d.kind, name |-> d.name, args |-> [j \in DOMAIN d.params |-> IF d.params[j].k = "enum" THEN "" ELSE FN!Text(FN!RT(d.params[j], FN!Canon))],
            var |-> d.var, null |-> d.null, ret |-> FN!Text(FN!RT(d.ret, FN!Canon)), dec |-> d.dec]
Decls == TLCEval([j \in DOMAIN FD1 |-> Decl(FD1[j])])
GScn(m) ==
    LET ts == TLCEval(GSch(RE(1..2))) sch == Struct0(ts) b == TLCEval(GrowN(<<>>, sch, IF Thorough THEN RE(3..7) ELSE RE(2..5))) st == TLCEval(GSteps(b, IF Thorough THEN RE(6..14) ELSE RE(4..9))) IN
    [id |-> m, op |-> "make", tag |-> Last(b).k, ts |-> ts, decls |-> Decls, b |-> b, steps |-> st]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
Law == sc.op = "make" =>
    /\ \A j \in DOMAIN sc.b : LET r == TLCEval(Mk(sc.b, j, <<>>, Struct0(sc.ts))) IN
          r.st = "ok" /\ r.e.k = "e" /\ Rex(r.e).k # "aggregate_function" => Mk(sc.b, j, <<<<T0("i8", "2")>>>>, Struct0(sc.ts)) = r
    \* a setter changes nothing before its part
    /\ \A j \in DOMAIN sc.steps : sc.steps[j].op = "set" => \A i \in 1..(sc.steps[j].i - 1) : Mk(Put(sc.b, sc.steps[j]), i, <<>>, Struct0(sc.ts)) = Mk(sc.b, i, <<>>, Struct0(sc.ts))
=============================================================================
