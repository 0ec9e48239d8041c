------------------------------ MODULE ExprsGen ------------------------------
EXTENDS Refs
VARIABLES n, sc
(* One mutation somewhere in the tree. *)
Alt(k, v) == CASE k = "function_reference" -> Other(v, [j \in DOMAIN FnDecls |-> ToString(FnDecls[j].a)])
    [] k = "phase" -> Other(v, Phases) [] k = "invocation" -> Other(v, Invocations) [] k = "direction" -> Other(v, Directions)
    [] k = "bounds_type" -> Other(v, BoundsTypes) [] k = "failure_behavior" -> Other(v, Fails)
    [] k \in {"parameter_reference", "steps_out", "comparison_function_reference", "field", "offset", "start", "end", "precision", "scale", "type_variation_reference"} -> Other(v, <<"1", "2", "3">>)
    [] k \in {"name", "preference", "enum", "string", "names", "fixed_char"} -> v \o "x"
    [] k \in {"i32", "i64", "date", "timestamp"} -> Other(v, <<"1", "2">>) [] k = "i8" -> Other(v, <<"1", "2">>)
    [] k = "boolean" -> Other(v, <<"true", "false">>) [] k \in {"fp32", "fp64"} -> Other(v, <<"1.5", "2.5">>)
    [] k = "predicate_op" -> Other(v, <<"PREDICATE_OP_EXISTS", "PREDICATE_OP_UNIQUE">>) [] k = "reduction_op" -> Other(v, <<"REDUCTION_OP_ANY", "REDUCTION_OP_ALL">>)
    [] k = "comparison_op" -> Other(v, <<"COMPARISON_OP_EQ", "COMPARISON_OP_NE", "COMPARISON_OP_LT">>)
    [] OTHER -> v
Toggles == {"maintain_singular_struct", "nullable", "bounds_type", "phase", "upper_bound", "lower_bound", "else", "child", "filter"}
Lists == {"arguments", "partitions", "sorts", "options", "preference", "ifs", "fields", "values", "key_values", "value", "needles", "struct_items", "selection", "types"}
Cut(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
RECURSIVE MutN(_)
MutN(x) ==
    IF x.c = <<>> THEN (IF x.p = <<>> THEN x ELSE [x EXCEPT !.p[1] = Alt(x.k, x.p[1])])
    ELSE IF x.k \in TypeFields THEN [x EXCEPT !.c[1] = FixN(MutT(x.c[1]))]
    ELSE LET j == RE(DOMAIN x.c) ch == x.c[j] w == RE(1..6) IN
         IF w = 1 /\ ch.k \in (Lists \cup Toggles) /\ x.k \notin {"key_values", "arguments", "singular_or_list", "if_then"}
            /\ (ch.k = "value" => x.k = "multi_or_list") THEN [x EXCEPT !.c = Cut(x.c, j)]
         ELSE IF w = 2 /\ ch.k \in Lists /\ (ch.k = "value" => x.k = "multi_or_list") THEN [x EXCEPT !.c = SubSeq(x.c, 1, j) \o SubSeq(x.c, j, Len(x.c))]
         ELSE IF w = 3 /\ j < Len(x.c) /\ x.c[j + 1].k = ch.k THEN [x EXCEPT !.c[j] = x.c[j + 1], !.c[j + 1] = ch]
         ELSE [x EXCEPT !.c[j] = MutN(ch)]
(* the places where a mutation is possible, a kind of place being as likely as any other *)
CutAt(x, ch) == ch.k \in (Lists \cup Toggles) /\ x.k \notin {"key_values", "arguments", "singular_or_list", "if_then"} /\ (ch.k = "value" => x.k = "multi_or_list")
DupAt(ch, x) == ch.k \in Lists /\ (ch.k = "value" => x.k = "multi_or_list")
RECURSIVE Sites(_, _)
Sites(x, p) == IF x.c = <<>> \/ x.k \in TypeFields THEN <<>> ELSE Flat([j \in DOMAIN x.c |-> LET ch == x.c[j] q == Append(p, j) IN
      OptF(CutAt(x, ch), <<x.k, ch.k, "cut", q>>) \o OptF(DupAt(ch, x), <<x.k, ch.k, "dup", q>>)
   \o OptF(j < Len(x.c) /\ x.c[j + 1].k = ch.k /\ x.c[j + 1] # ch, <<x.k, ch.k, "swap", q>>)
   \o OptF((ch.c = <<>> /\ ch.p # <<>>) \/ ch.k \in TypeFields, <<x.k, ch.k, "alt", q>>)
   \o Sites(ch, q)])
RECURSIVE AtSite(_, _, _)
AtSite(x, p, how) == LET j == p[1] IN
    IF Len(p) > 1 THEN [x EXCEPT !.c[j] = AtSite(@, Tail(p), how)]
    ELSE CASE how = "cut" -> [x EXCEPT !.c = Cut(x.c, j)]
           [] how = "dup" -> [x EXCEPT !.c = SubSeq(x.c, 1, j) \o SubSeq(x.c, j, Len(x.c))]
           [] how = "swap" -> [x EXCEPT !.c[j] = x.c[j + 1], !.c[j + 1] = x.c[j]]
           [] OTHER -> [x EXCEPT !.c[j] = MutN(@)]
MutS(e) == LET ss == TLCEval(Sites(e, <<>>)) IN IF ss = <<>> THEN e ELSE
    LET ks == {<<ss[j][1], ss[j][2], ss[j][3]>> : j \in DOMAIN ss} k == TLCEval(RE(ks)) s == TLCEval(Pick(SelectSeq(ss, LAMBDA y : <<y[1], y[2], y[3]>> = k))) IN AtSite(e, s[4], s[3])
RECURSIVE Mutate(_, _)
Mutate(e, k) == LET m == TLCEval(IF Chance(1, 2) THEN MutS(e) ELSE MutN(e)) IN IF k = 0 \/ NormE(m) # NormE(e) THEN m ELSE Mutate(e, k - 1)

(* replacement of some sub-expressions by other expressions of the same type *)
IsLitIf(e, x) == Rex(x).k = "literal"
GTo(f, cx, ctr) == LET t == TypeOfE(f, cx) IN
    IF Rex(f).k = "literal" THEN E(GLitOf(TypeOfLit(Rex(f)), 1))    \* also right where only a literal may stand
    ELSE IF Rex(f).k = "lambda" THEN MapCh(f, LAMBDA x : E(GLitOf(GT1(0), 1)))
    ELSE IF Known(t) /\ t.k # "func" THEN (IF Chance(1, 3) THEN E(GLitOf(t, 1)) ELSE GE(t, cx, 1))
    ELSE GLoose(cx)
GSubst(pool, cx) == LET m == RE(1..2) IN TLCEval([j \in 1..m |-> LET f == TLCEval(As("e", Pick(pool))) t == TLCEval(GTo(f, cx, 0)) IN [f |-> f, t |-> t]])
NoDup(s) == \A i, j \in DOMAIN s : i # j => NormE(s[i].f) # NormE(s[j].f)

RECURSIVE GNode(_, _, _)
GNode(cx, deep, k) == LET e == TLCEval(GTop(cx)) IN IF k = 0 \/ Len(IF deep THEN Descend(e) ELSE ChildrenE(e)) > (IF deep THEN 1 ELSE 0) THEN e ELSE GNode(cx, deep, k - 1)
GVisit(m, cx, how) == LET e == TLCEval(GNode(cx, how # "one", 6))
                         pool == TLCEval(IF how = "one" THEN ChildrenE(e) ELSE Tail(Descend(e)))
                         s == TLCEval(IF pool = <<>> \/ Chance(1, 8) THEN <<>> ELSE GSubst(pool, cx)) IN
    [id |-> m, op |-> "visit", tag |-> how \o "." \o Rex(e).k, how |-> how, sch |-> cx, e |-> e, s |-> IF NoDup(s) THEN s ELSE SubSeq(s, 1, 1), fns |-> FnDecls]
(* two references one of which goes on where the other ends, or goes another way *)
GRefPair(m) ==
    LET cx == TLCEval(Struct0(TLCEval([j \in 1..2 |-> GLT(Pick(<<"struct", "list", "map">>), 3)]))) ps == TLCEval([j \in 1..5 |-> GPath(cx, 6)]) p == ps[CHOOSE j \in 1..5 : \A i \in 1..5 : Len(ps[i]) <= Len(ps[j])]
        ks == {j \in 1..(Len(p) - 1) : p[j].k # "f"} k == TLCEval(IF ks # {} /\ Chance(2, 3) THEN RE(ks) ELSE RE(1..Len(p))) pre == SubSeq(p, 1, k)
        q == TLCEval(CASE k < Len(p) /\ Chance(3, 4) -> pre
                       [] Chance(1, 2) -> pre \o GPath(TyAt(cx, pre, k), 3)
                       [] OTHER -> MutPath(cx, p))
        a == TLCEval(RefE(p, RootR)) b == TLCEval(IF q = <<>> THEN a ELSE RefE(q, RootR)) IN
    [id |-> m, op |-> "eq", tag |-> "ref", sch |-> cx, e |-> a, f |-> b, fns |-> FnDecls]
GScn(m) == LET cx == TLCEval(GSchema(0)) w == m % 16 prop == Prop IN
    IF prop \in {"P10", "P25"} THEN
        IF w = 0 THEN [id |-> m, op |-> "agg", tag |-> "agg", sch |-> cx, e |-> TLCEval(GAgg(cx, 2)), fns |-> FnDecls]
        ELSE IF w = 1 /\ prop = "P10" THEN LET k == RE(1..3) IN [id |-> m, op |-> "ext", tag |-> "ext", sch |-> cx, fns |-> FnDecls,
                xs |-> TLCEval([j \in 1..k |-> LET a == TLCEval(Chance(1, 3)) IN [m |-> a, e |-> NoSub(cx, a), names |-> [i \in 1..RE(0..2) |-> Pick(<<"a", "", "b c">>)]]]),
                top |-> <<Msg("version", <<Sc("minor_number", "42"), Sc("producer", "p q")>>)>> \o OptF(Chance(1, 2), Sc("expected_type_urls", "type.x/y"))
                          \o OptF(Chance(1, 2), Msg("advanced_extensions", <<Msg("enhancement", <<Sc("type_url", "u/v"), Sc("value", "0a01")>>)>>))]
        ELSE LET e == TLCEval(GTop(cx)) IN [id |-> m, op |-> "wire", tag |-> Rex(e).k, sch |-> cx, e |-> e, fns |-> FnDecls]
    ELSE IF prop = "P11" THEN (IF w < 8 THEN GVisit(m, cx, "one") ELSE IF w < 12 THEN GVisit(m, cx, "pre") ELSE GVisit(m, cx, "post"))
    ELSE IF w \in {12, 14} THEN GRefPair(m)
    ELSE LET e == TLCEval(GTop(cx)) f == TLCEval(IF w = 0 THEN GTop(cx) ELSE IF w < 4 THEN e ELSE Mutate(e, 4)) IN
         [id |-> m, op |-> "eq", tag |-> Rex(e).k, sch |-> cx, e |-> e, f |-> f, fns |-> FnDecls]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: normalising is idempotent and keeps type and scalarity; replacing nothing changes nothing; a single replacement
   pass and MapCh/ChildrenE agree on what the children are. *)
Law == sc.op \in {"wire", "visit", "eq"} =>
    /\ NormE(NormE(sc.e)) = NormE(sc.e)
    /\ Known(TypeOfE(sc.e, sc.sch)) => TypeOfE(NormE(sc.e), sc.sch) = TypeOfE(sc.e, sc.sch)
    /\ IsScalarE(NormE(sc.e)) = IsScalarE(sc.e)
    /\ Post(sc.e, <<>>) = sc.e /\ Pre(sc.e, <<>>) = sc.e
    /\ Len(ChildrenE(MapCh(sc.e, LAMBDA x : E(Msg("literal", <<Sc("i32", "99")>>))))) = Len(ChildrenE(sc.e))
    /\ \A j \in DOMAIN ChildrenE(MapCh(sc.e, LAMBDA x : E(Msg("literal", <<Sc("i32", "99")>>)))) :
          ChildrenE(MapCh(sc.e, LAMBDA x : E(Msg("literal", <<Sc("i32", "99")>>))))[j] = E(Msg("literal", <<Sc("i32", "99")>>))
=============================================================================
