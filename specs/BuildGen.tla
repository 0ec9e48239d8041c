------------------------------- MODULE BuildGen -------------------------------
EXTENDS Build
VARIABLES n, sc
D0 == [a |-> "", h |-> 0, g |-> 0, ins |-> <<>>, m |-> <<>>, ts |-> <<>>, names |-> <<>>, es |-> <<>>, rows |-> <<>>, sorts |-> <<>>, ms |-> <<>>, x |-> "", off |-> "0", cnt |-> "0",
       idx |-> <<>>, groups |-> <<>>, binds |-> <<>>, urls |-> <<>>, others |-> <<>>, lit |-> "no"]
(* a mapping over c columns: none, one that fits, or one next to it *)
GM(c) == IF c = 0 /\ Chance(1, 4) THEN <<<<0>>>>
    ELSE IF Chance(2, 3) THEN <<>>
    ELSE IF Chance(3, 4) THEN (IF c = 0 THEN <<>> ELSE <<TLCEval([j \in 1..RE(1..(c + 1)) |-> RE(0..(c - 1))])>>)
    ELSE <<TLCEval([j \in 1..RE(0..2) |-> IF c = 0 THEN 0 ELSE RE(0..(c - 1))]) \o <<Pick(<<-1, c, c + 1, 2147483647, c>>)>>>>
GNames(c, exact) == LET k == IF exact THEN c ELSE Max2(0, c + Pick(<<-1, 1, 2>>)) IN TLCEval([j \in 1..k |-> Pick(<<"a", "b", "", "c" \o ToString(j)>>)])
GTab(x) == TLCEval([j \in 1..RE(1..2) |-> Pick(<<"db", "t1", "t2", "">>)])
Ex(e) == Rn(e)
GBoolE(cx, d) == TLCEval(Ex(IF Chance(9, 10) THEN GB(cx, d) ELSE IF Chance(1, 4) THEN NilNode ELSE GKnown(GLT(Pick(<<"i32", "string", "struct", "list">>), 1), cx, 1)))
GVal(cx, d) == TLCEval(Ex(IF Chance(1, 30) THEN NilNode ELSE IF Chance(1, 3) THEN GKnown(GLT(Pick(LitKinds), 1), cx, d) ELSE GAnyK(cx, d)))
(* structs inside collections, to any depth: their field names count too *)
RECURSIVE GDeep(_)
GDeep(d) == LET u == Pick(<<"1", "2">>) w == RE(1..6) IN
    CASE d = 0 \/ w = 1 -> LET m == RE(0..3) IN Nd("struct", <<u, "0">>, TLCEval([j \in 1..m |-> IF d > 0 /\ Chance(1, 3) THEN GDeep(d - 1) ELSE T0(Pick(<<"i32", "string">>), u)]))
      [] w \in {2, 3, 4} -> Nd("list", <<u, "0">>, <<GDeep(d - 1)>>)
      [] OTHER -> LET k == Chance(1, 4) a == TLCEval(GDeep(d - 1)) IN Nd("map", <<u, "0">>, <<IF k THEN a ELSE T0("i64", "2"), IF k /\ Chance(1, 2) THEN T0("bool", "1") ELSE TLCEval(GDeep(d - 1))>>)
GTs(x) == TLCEval(IF Chance(1, 12) THEN <<>> ELSE IF Chance(1, IF Prop = "P20" THEN 4 ELSE 12) THEN TLCEval(GCols(0)) \o <<TLCEval(GDeep(RE(1..3)))>> ELSE GCols(0))
GMs(cx, k) == TLCEval([j \in 1..k |-> LET mm == TLCEval(Rn(GMeasure(cx, 1))) w == RE(1..25) IN
    IF w = 1 THEN [mm EXCEPT !.c = SelectSeq(@, LAMBDA y : y.k # "measure")] ELSE IF w = 2 THEN [mm EXCEPT !.c = SelectSeq(@, LAMBDA y : y.k # "filter") \o <<As("filter", E(GLitOf(T0("i32", "2"), 1)))>>] ELSE mm])
GRows(ts) ==
    LET k == IF Chance(1, 15) THEN 0 ELSE RE(1..3) lit == Chance(1, 2)
        cell(t) == TLCEval(Ex(IF lit THEN E(GLitOf(t, 2)) ELSE GKnown(t, NoCx, 1)))
        rows == TLCEval([j \in 1..k |-> [i \in DOMAIN ts |-> cell(ts[i])]]) w == RE(1..8) j == IF k = 0 THEN 1 ELSE RE(1..k) IN
    [lit |-> lit, rows |-> TLCEval(IF k = 0 \/ ts = <<>> THEN rows
        ELSE CASE w = 1 -> [rows EXCEPT ![j] = SubSeq(@, 1, Len(@) - 1)]
               [] w = 2 -> [rows EXCEPT ![j] = Append(@, cell(ts[1]))]
               [] w = 3 -> [rows EXCEPT ![j][RE(1..Len(ts))] = IF Chance(1, 2) THEN NilNode ELSE cell(GLT("i8", 0))]
               [] w = 4 -> LET i == RE(1..Len(ts)) IN [rows EXCEPT ![j][i] = cell(WithNull(ts[i], IF Nul(ts[i]) = "1" THEN "2" ELSE "1"))]
               [] OTHER -> rows)]
GStart(x) ==
    LET w == RE(1..10) ts == GTs(0) nn == NFields(Struct0(ts)) nm == GNames(nn, TRUE) nx == GNames(nn, Chance(5, 6)) rw == TLCEval(GRows(ts)) mp == GM(Len(ts)) IN
    CASE w <= 4 -> [D0 EXCEPT !.a = "scan", !.ts = ts, !.names = nm, !.urls = GTab(0), !.m = mp]
      [] w <= 6 -> [D0 EXCEPT !.a = "vt", !.rows = rw.rows, !.lit = IF rw.lit THEN "yes" ELSE "no", !.names = nx, !.m = mp]
      [] w = 7 -> [D0 EXCEPT !.a = "evt", !.ts = ts, !.names = nx]
      [] w = 8 -> [D0 EXCEPT !.a = "ext", !.ts = ts, !.names = nm, !.x = Pick(<<"u/x", "vh/two", "">>)]
      [] w = 9 -> LET z == Pick(<<"none", "id", "ts">>) IN [D0 EXCEPT !.a = "iceberg", !.ts = ts, !.names = nm, !.urls = <<Pick(<<"m://1", "">>)>>, !.x = z, !.off = Pick(IF z = "ts" THEN <<"12345", "-1", "0">> ELSE <<"1", "77">>)]
      [] OTHER -> [D0 EXCEPT !.a = "leaf", !.x = Pick(<<"vh/two", "vh/two", "vh/cat", "", "vh/par", "vh/par">>)]
(* a call with a mapping that suits, or narrowly does not suit, what it produces *)
WithM(pool, st) == LET r == TLCEval(BRes(pool, st)) IN [st EXCEPT !.m = TLCEval(GM(IF r.ok THEN Len(SchemaR(r.r)) ELSE 2))]
Same1(pool, h) == {j \in DOMAIN pool : SchemaR(pool[j]) = SchemaR(pool[h])}
GCall(pool) ==
    LET k == Len(pool) hh == IF Chance(1, 25) THEN 0 ELSE IF Chance(2, 3) THEN RE(Max2(1, k - 1)..k) ELSE RE(1..k) gg == IF Chance(1, 25) THEN 0 ELSE RE(1..k) w == RE(1..26)
        h == TLCEval(hh) g == TLCEval(gg) cols == TLCEval(Cols(pool, h)) cx == TLCEval(Struct0(cols)) cxj == TLCEval(Struct0(cols \o Cols(pool, g))) big == Len(cols) > 8 \/ Len(cols) + Len(Cols(pool, g)) > 10 IN
    CASE w <= 3 -> GStart(0)
      [] w <= 5 -> LET st == TLCEval([D0 EXCEPT !.a = "filter", !.h = h, !.es = <<GBoolE(cx, 2)>>]) IN WithM(pool, st)
      [] w <= 8 -> LET st == TLCEval([D0 EXCEPT !.a = "project", !.h = h, !.es = TLCEval([j \in 1..RE(IF Chance(1, 15) THEN {0} ELSE 1..3) |-> GVal(cx, 2)])]) IN WithM(pool, st)
      [] w = 9 -> LET st == TLCEval([D0 EXCEPT !.a = "fetch", !.h = h, !.off = Pick(<<"0", "5", "9223372036854775807", "-1", "-5">>), !.cnt = Pick(<<"0", "10", "-1", "9223372036854775807", "-2", "-9223372036854775808">>)]) IN WithM(pool, st)
      [] w = 10 -> LET st == TLCEval([D0 EXCEPT !.a = "sort", !.h = h, !.sorts = TLCEval([j \in 1..RE(IF Chance(1, 15) THEN {0} ELSE 1..2) |-> LET s == TLCEval(Rn(GSort(cx, 1))) IN IF Chance(1, 25) THEN Without(s, "expr") ELSE s])]) IN WithM(pool, st)
      [] w = 11 -> LET c == Len(cols) st == TLCEval([D0 EXCEPT !.a = "sortcols", !.h = h, !.idx = TLCEval([j \in 1..RE(IF Chance(1, 15) THEN {0} ELSE 1..2) |-> IF c = 0 \/ Chance(1, 8) THEN Pick(<<-1, c, c + 1>>) ELSE RE(0..(c - 1))])]) IN WithM(pool, st)
      [] w <= 14 /\ ~big -> LET st == TLCEval([D0 EXCEPT !.a = "join", !.h = h, !.g = g, !.es = <<GBoolE(cxj, 1)>> \o (IF Chance(1, 3) THEN <<LET e == GBoolE(cxj, 1) IN IF IsNil(e) THEN E(GLitOf(T0("i8", "2"), 1)) ELSE e>> ELSE <<>>),
                                  !.x = IF Chance(1, 12) THEN Pick(<<"JOIN_TYPE_UNSPECIFIED", "99">>) ELSE Pick(JoinTypes)]) IN WithM(pool, st)
      [] w = 15 /\ ~big -> WithM(pool, TLCEval([D0 EXCEPT !.a = "cross", !.h = h, !.g = g]))
      [] w <= 17 /\ h # 0 -> LET z == RE(1..6) others == TLCEval([j \in 1..RE(0..2) |-> IF Chance(1, 12) THEN 0 ELSE IF Chance(1, 6) THEN g ELSE RE(Same1(pool, h))]) IN
            WithM(pool, TLCEval([D0 EXCEPT !.a = "set", !.ins = <<h>> \o others, !.x = IF Chance(1, 12) THEN "SET_OP_UNSPECIFIED" ELSE Pick(SetOps)]))
      [] w = 18 -> LET own == Chance(1, 2) ts == TLCEval(IF own THEN cols ELSE GTs(0)) st == TLCEval([D0 EXCEPT !.a = "write", !.h = h, !.ts = ts, !.names = GNames(NFields(Struct0(ts)), TRUE), !.urls = GTab(0),
                        !.x = Pick(<<"WRITE_OP_INSERT", "WRITE_OP_DELETE", "WRITE_OP_UPDATE", "WRITE_OP_CTAS", "WRITE_OP_CTAS", "WRITE_OP_CTAS", IF Chance(1, 3) THEN "WRITE_OP_UNSPECIFIED" ELSE "WRITE_OP_CTAS">>)]) IN WithM(pool, st)
      [] w = 19 -> LET c == Len(cols) IN [D0 EXCEPT !.a = "aggcols", !.h = h, !.ms = GMs(cx, RE(0..2)), !.idx = TLCEval(Dedup([j \in 1..RE(0..2) |-> IF c = 0 \/ Chance(1, 8) THEN Pick(<<-1, c, c + 1>>) ELSE RE(0..(c - 1))]))]
      [] w = 20 -> LET es == TLCEval([j \in 1..RE(1..3) |-> GVal(cx, 1)]) IN
            [D0 EXCEPT !.a = "aggexprs", !.h = h, !.ms = GMs(cx, RE(0..1)), !.es = es, !.groups = TLCEval([j \in 1..RE(0..3) |-> TLCEval(Dedup([i \in 1..RE(0..2) |-> RE(1..Len(es))]))])]
      [] w = 21 -> IF Chance(1, 2) THEN [D0 EXCEPT !.a = "single", !.h = h, !.x = Pick(<<"vh/two", "vh/cat", "vh/cat", "", "vh/par">>)]
                   ELSE [D0 EXCEPT !.a = "multi", !.ins = IF Chance(1, 10) THEN <<>> ELSE IF big THEN <<h>> ELSE <<h, g>>, !.x = Pick(<<"vh/two", "vh/cat", "vh/cat", "", "vh/par">>)]
      [] w <= 24 /\ h # 0 -> [D0 EXCEPT !.a = "remap", !.h = h, !.m = LET x == TLCEval(GM(Len(cols))) IN IF x = <<>> THEN <<<<>>>> ELSE x]
      [] g # 0 /\ w = 25 -> LET z == RE(1..3) c == Len(cols) cg == TLCEval(Struct0(Cols(pool, g))) IN
            (CASE z = 1 -> [D0 EXCEPT !.a = "subfilter", !.h = h, !.g = g, !.x = "in", !.es = TLCEval([j \in 1..(IF Chance(1, 4) THEN RE(0..2) ELSE c) |-> GVal(cg, 1)])]
               [] z = 2 -> [D0 EXCEPT !.a = "subfilter", !.h = h, !.g = g, !.x = "set", !.names = <<Pick(<<"PREDICATE_OP_EXISTS", "PREDICATE_OP_UNIQUE", "PREDICATE_OP_UNSPECIFIED">>)>>]
               [] OTHER -> [D0 EXCEPT !.a = "subfilter", !.h = h, !.g = g, !.x = "cmp", !.es = <<GVal(cg, 1)>>, !.names = <<Pick(<<"REDUCTION_OP_ANY", "REDUCTION_OP_ALL", IF Chance(1, 3) THEN "REDUCTION_OP_UNSPECIFIED" ELSE "REDUCTION_OP_ALL">>),
                               Pick(<<"COMPARISON_OP_EQ", "COMPARISON_OP_NE", "COMPARISON_OP_LT", "COMPARISON_OP_GE", IF Chance(1, 3) THEN "COMPARISON_OP_UNSPECIFIED" ELSE "COMPARISON_OP_GT">>)>>])
      [] g # 0 -> [D0 EXCEPT !.a = "subproject", !.h = h, !.g = g, !.x = "scalar"]
      [] OTHER -> GStart(0)
(* bindings drawn from the parameters of the plan, then disturbed *)
GBinds(ps) ==
    LET some == TLCEval(SelectSeq([j \in DOMAIN ps |-> IF \E i \in 1..(j - 1) : ps[i].a = ps[j].a THEN [a |-> "-", t |-> ps[j].t] ELSE ps[j]], LAMBDA p : p.a # "-" /\ Chance(2, 3)))
        good == TLCEval([j \in DOMAIN some |-> [a |-> some[j].a, v |-> As("literal", GLitOf(IF Chance(1, 3) THEN WithNull(some[j].t, Pick(<<"1", "2">>)) ELSE some[j].t, 2))]])
        w == RE(1..8) IN
    IF good = <<>> \/ w = 1 THEN good \o (IF Chance(1, 2) THEN <<>> ELSE <<[a |-> Pick(<<"0", "1", "2", "4294967295">>), v |-> As("literal", GLitOf(GLT(Pick(<<"i32", "string", "bool">>), 0), 1))]>>)
    ELSE IF w = 2 THEN good \o <<good[RE(1..Len(good))]>>
    ELSE IF w = 3 THEN [good EXCEPT ![RE(1..Len(good))].v = As("literal", GLitOf(GLT(Pick(LitKinds), 1), 1))]
    ELSE IF w = 4 THEN [good EXCEPT ![RE(1..Len(good))].v = IF Chance(1, 2) THEN NilNode ELSE As("literal", GLitOf(T0("i64", "2"), 1))]
    ELSE IF w = 5 THEN [good EXCEPT ![RE(1..Len(good))].a = Pick(<<"3", "4294967295">>)]
    ELSE good
GPlanCall(pool, bind) ==
    LET k == Len(pool) h == TLCEval(IF Chance(1, 30) THEN 0 ELSE IF Chance(2, 3) THEN k ELSE RE(1..k)) c == NFields(Struct0(Cols(pool, h)))
        st == TLCEval([D0 EXCEPT !.a = "plan", !.h = h, !.names = GNames(c, bind \/ Chance(3, 4)), !.others = TLCEval([j \in 1..RE(0..1) |-> IF Chance(1, 12) THEN 0 ELSE RE(1..k)]),
                        !.urls = TLCEval([j \in 1..RE(0..2) |-> Pick(<<"type.x/y", "z">>)])]) IN
    [st EXCEPT !.binds = IF bind /\ PlanOk(pool, st) THEN TLCEval(GBinds(PlanParams(pool, st))) ELSE <<>>]
RECURSIVE GHist(_, _, _)
GHist(pool, k, acc) ==
    IF k = 0 THEN acc ELSE
    LET st == TLCEval(IF pool = <<>> THEN GStart(0) ELSE IF Chance(1, 8) THEN GPlanCall(pool, Chance(1, 2)) ELSE GCall(pool)) IN
    GHist(IF st.a = "plan" THEN pool ELSE TLCEval(BApply(pool, st)), k - 1, Append(acc, st))
(* parameters anywhere: a relation of any kind read from a message, wrapped or not, then bound *)
GHistB(m) == LET r == TLCEval(Rn(GW(Kinds[(m % (Len(Kinds) - 1)) + 1], Pick(<<1, 1, 2>>)))) IN
    [read |-> r, steps |-> TLCEval(LET a == TLCEval(IF Chance(1, 2) THEN <<>> ELSE <<GCall(<<r>>)>>) pool == TLCEval(IF a = <<>> THEN <<r>> ELSE BApply(<<r>>, a[1])) IN a \o <<GPlanCall(pool, TRUE), GPlanCall(pool, TRUE), GPlanCall(pool, TRUE)>>)]
(* two builders that go on from the same built relation *)
Twin(x) ==
    LET S(a, b, i, refs) == [a |-> a, b |-> b, i |-> i, refs |-> refs] k == RE(1..3) k2 == RE(1..4)
        grow(b) == TLCEval(CASE Chance(1, 2) -> <<S("set", b, 0, <<b - 1>>)>> [] Chance(1, 2) -> <<S("rollup", b, 0, <<b - 1, 0>>)>> [] OTHER -> <<S("cube", b, 0, <<0, b - 1>>)>>) IN
    TLCEval([j \in 1..k |-> S("expr", 1, j, <<>>)]) \o TLCEval([j \in 1..k2 |-> S("set", 1, 0, <<RE(0..(k - 1))>>)])
    \o <<S("build", 1, 0, <<>>), S("tobuilder", 2, 1, <<>>), S("expr", 1, 4, <<>>)>> \o grow(1) \o <<S("build", 1, 0, <<>>), S("expr", 2, Pick(<<1, 2, 3>>), <<>>)>>
    \o grow(2) \o <<S("build", 2, 0, <<>>), S("tobuilder", 1, RE(1..3), <<>>), S("expr", 1, RE(1..4), <<>>)>> \o grow(1) \o <<S("build", 1, 0, <<>>)>>
GAggHist(m) ==
    LET ts == TLCEval(GCols(0)) cx == TLCEval(Struct0(ts))
        es == TLCEval([j \in 1..4 |-> Ex(GAnyK(cx, 1))]) ms == GMs(cx, RE(0..1))
        refs(c) == TLCEval(Dedup([j \in 1..RE(0..3) |-> IF Chance(1, 14) THEN Pick(<<4, 7>>) ELSE RE(0..Max2(0, c - 1))]))
        one(c) == LET w == RE(1..16) b == RE(1..2) IN
              IF w <= 4 THEN [a |-> "expr", b |-> b, i |-> IF Chance(1, 25) THEN 0 ELSE RE(1..Len(es)), refs |-> <<>>]
              ELSE IF w <= 6 THEN [a |-> "set", b |-> b, i |-> 0, refs |-> refs(c)]
              ELSE IF w = 7 THEN [a |-> "cube", b |-> b, i |-> 0, refs |-> IF Chance(1, 20) THEN [j \in 1..21 |-> j - 1] ELSE refs(c)]
              ELSE IF w = 8 THEN [a |-> "rollup", b |-> b, i |-> 0, refs |-> refs(c)]
              ELSE IF w = 9 THEN [a |-> Pick(<<"input", "clearm", "clearg">>), b |-> b, i |-> RE(0..2), refs |-> <<>>]
              ELSE IF w <= 13 THEN [a |-> "build", b |-> b, i |-> 0, refs |-> <<>>]
              ELSE [a |-> "tobuilder", b |-> b, i |-> RE(1..3), refs |-> <<>>] IN
    [id |-> m, op |-> "agg", tag |-> "agg", ts |-> ts, es |-> es, ms |-> ms, fns |-> FnDecls,
     steps |-> TLCEval(IF Chance(1, 3) THEN Twin(0) ELSE [j \in 1..(IF Thorough THEN RE(8..20) ELSE RE(6..14)) |-> IF j <= 2 THEN [a |-> "expr", b |-> j, i |-> RE(1..Len(es)), refs |-> <<>>] ELSE one(j \div 2)])]
GScn(m) == LET p == Prop IN
    IF (p = "P19" \/ m % 10 = 0) /\ p # "P20" THEN LET hb == TLCEval(GHistB(m)) IN [id |-> m, op |-> "build", tag |-> "bind", first |-> <<hb.read>>, steps |-> hb.steps, fns |-> FnDecls]
    ELSE IF m % 4 = 1 /\ p \in {"P18", "P16"} THEN GAggHist(m)
    ELSE [id |-> m, op |-> "build", tag |-> "build", first |-> <<>>, steps |-> TLCEval(GHist(<<>>, IF Thorough THEN RE(4..12) ELSE RE(3..8), <<>>)), fns |-> FnDecls]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: whatever is built has a schema that its parts determine; normalising does not change it. *)
RECURSIVE PoolOf(_, _, _)
PoolOf(pool, steps, j) == IF j > Len(steps) THEN pool ELSE PoolOf(IF steps[j].a = "plan" THEN pool ELSE TLCEval(BApply(pool, steps[j])), steps, j + 1)
Law == sc.op = "build" /\ n % 8 = 0 => LET pool == TLCEval(PoolOf(sc.first, sc.steps, 1)) IN
    \A j \in DOMAIN pool : /\ SchemaKnown(pool[j]) /\ ~HasWrite(pool[j]) => SchemaR(NB(pool[j])) = SchemaR(pool[j]) /\ NB(NB(pool[j])) = NB(pool[j])
                           /\ SameRel(pool[j], pool[j])
=============================================================================
