------------------------------- MODULE RefsGen -------------------------------
EXTENDS Refs
VARIABLES n, sc
GRef(m) ==
    LET ts == TLCEval(GSch(RE(0..4))) own == Struct0(ts) w == RE(1..3)
        rt == TLCEval(GLT(Pick(<<"struct", "list", "map", "struct", "i32">>), 2))
        root == TLCEval(IF w # 1 THEN NilNode ELSE IF Chance(1, 2) THEN E(GLitOf([rt EXCEPT !.p[1] = "2"], 2)) ELSE E(Msg("cast", <<Msg("type", <<rt>>), As("input", E(GLitOf(T0("i32", "2"), 1)))>>)))
        base == IF w # 1 THEN own ELSE TypeOfE(root, own)
        p == TLCEval(GPath(base, 4)) q == TLCEval(IF Chance(2, 5) THEN MutPath(base, p) ELSE p) IN
    [id |-> m, op |-> "ref", tag |-> IF w = 1 THEN "expr" ELSE "root", ts |-> ts, root |-> root, path |-> q,
     msg |-> RefE(q, IF w = 1 THEN <<As("expression", root)>> ELSE RootR), more |-> TLCEval(GSeg(0))]
(* columns: references by index over relations and over the joined inputs of a join; the schemas share their storage *)
GCol(m) ==
    LET ts == TLCEval(GSch(RE(1..5))) k == RE(0..Len(ts)) us == TLCEval(GSch(RE(0..2))) mp == TLCEval([j \in 1..RE(0..2) |-> RE(0..(Len(ts) - 1))]) IN
    [id |-> m, op |-> "col", tag |-> "col", ts |-> ts, cut |-> k, us |-> us, emit |-> mp,
     idx |-> TLCEval([j \in 1..4 |-> Pick(<<0, k, Len(ts), Len(mp), k + Len(us), k - 1, -1, RE(0..6), 2147483647, Len(ts) - 1, k + Len(us) - 1>>)])]
GParams(x) == TLCEval([j \in 1..RE(1..3) |-> IF Chance(2, 3) THEN T0(Pick(<<"i32", "i32", "bool", "string">>), Pick(<<"1", "2">>)) ELSE GLT(Pick(<<"struct", "list", "map">>), 2)])
GNode(b, own) ==
    LET k == Len(b) w == RE(1..20) any == IF k = 0 THEN 1 ELSE RE(1..k) near == IF k = 0 THEN 1 ELSE Max2(1, k - RE(0..1)) IN
    IF k = 0 \/ w <= 2 THEN [k |-> "lit", v |-> TLCEval(GLitOf(IF Chance(2, 3) THEN T0(Pick(<<"i32", "bool">>), Pick(<<"1", "2">>)) ELSE GColAny(0), 2))]
    ELSE IF w <= 7 THEN
         LET s == Pick(<<0, 0, 0, 1, 1, 2, 3, 65536>>) f == Pick(<<0, 0, 0, 1, 1, 2, 3, -1>>) IN [k |-> "pref", s |-> s, p |-> <<Seg("f", f, NilNode)>> \o (IF Chance(1, 5) THEN <<TLCEval(GSeg(0))>> ELSE <<>>)]
    ELSE IF w <= 13 THEN [k |-> "lam", ts |-> GParams(0), nul |-> Pick(<<"2", "2", "2", "2", "2", "2", "2", "2", "1", "0">>), of |-> near]
    ELSE IF w = 14 THEN [k |-> "cast", t |-> GColAny(0), of |-> any]
    ELSE IF w = 15 THEN [k |-> "param", t |-> GColAny(0), s |-> RE(0..2)]
    ELSE IF w = 16 THEN [k |-> "ref", p |-> TLCEval(LET p == TLCEval(GPath(own, 3)) IN IF Chance(1, 3) THEN MutPath(own, p) ELSE p)]
    ELSE IF w = 17 THEN [k |-> "fn", f |-> "not", args |-> <<any>>]
    ELSE IF w = 18 THEN [k |-> "fn", f |-> "add", args |-> <<any, near>>]
    ELSE IF w = 19 THEN [k |-> "fn", f |-> "transform", args |-> <<any, near>>]
    ELSE [k |-> Pick(<<"err", "panic">>)]
RECURSIVE GNodes(_, _, _)
GNodes(b, own, k) == IF k = 0 THEN b ELSE LET x == TLCEval(GNode(b, own)) IN
    \* a transform needs a list, and a lambda over its elements
    IF x.k = "fn" /\ x.f = "transform" /\ Chance(4, 5) THEN
        LET el == TLCEval(T0(Pick(<<"i32", "bool", "string">>), Pick(<<"1", "2">>))) j == Len(b) IN
        GNodes(b \o <<[k |-> "lit", v |-> TLCEval(GLitOf(Nd("list", <<Pick(<<"1", "2">>), "0">>, <<el>>), 2))],
                      [k |-> "lam", ts |-> <<IF Chance(5, 6) THEN el ELSE T0("i8", "2")>>, nul |-> "2", of |-> RE(1..j)],
                      [k |-> "fn", f |-> "transform", args |-> <<j + 1, j + 2>>]>>, own, k - 1)
    ELSE GNodes(Append(b, x), own, k - 1)
GLam(m) ==
    LET ts == TLCEval(GSch(RE(1..2))) b == TLCEval(GNodes(<<>>, Struct0(ts), IF Thorough THEN RE(5..14) ELSE RE(4..10))) k == Len(b) IN
    [id |-> m, op |-> "lambda", tag |-> b[k].k, ts |-> ts, b |-> b, builds |-> TLCEval([j \in 1..(k + 2) |-> IF Chance(1, 4) THEN RE(1..k) ELSE Max2(1, k - RE(0..5))])]
GScn(m) == IF m % 4 = 0 THEN GCol(m) ELSE IF m % 4 = 1 THEN GLam(m) ELSE IF m % 4 = 2 THEN GRef(m) ELSE GLam(m)
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
Law ==
    /\ sc.op = "ref" /\ sc.path # <<>> /\ sc.tag = "root" /\ ResT(Struct0(sc.ts), sc.path) # NoT => TypeOfE(sc.msg, Struct0(sc.ts)) = ResT(Struct0(sc.ts), sc.path)
    /\ sc.op = "lambda" => \A j \in DOMAIN sc.b : LET r == TLCEval(Bld(sc.b, j, <<>>, Struct0(sc.ts))) IN
          \* what builds outside any lambda builds inside one, alike
          r.ok => LET r2 == TLCEval(Bld(sc.b, j, <<<<T0("i8", "2")>>>>, Struct0(sc.ts))) IN r2 = r
=============================================================================
