---------------------------- MODULE LiteralsGen ----------------------------
EXTENDS Literals
VARIABLES n, sc
Ctors == <<"new", "expr", "lit">>
(* the same literal as a constructor can state it: no variation at the top, an empty collection's own included *)
Plain(l) == LET v == LVal(l) l2 == NoVar(l) IN IF v.k \in {"empty_list", "empty_map"} THEN [l2 EXCEPT !.c[1] = Without(v, "type_variation_reference")] ELSE l2
Sixth(l) == LET v == LVal(l) IN v.k = "interval_day_to_second" => Has(v, "precision") /\ IdsPrec(v) = "6"
RECURSIVE GNew(_, _)
GNew(k, m) == LET l == TLCEval(Plain(GLit(k, RE(1..3)))) c == TLCEval(Pick(Ctors)) IN
    IF CtorOk(c, l) /\ (c = "lit" => Sixth(l)) THEN [id |-> m, op |-> "new", tag |-> c \o "." \o LVal(l).k, ctor |-> c, l |-> l]
    ELSE IF CtorOk("new", l) THEN [id |-> m, op |-> "new", tag |-> "new." \o LVal(l).k, ctor |-> "new", l |-> l]
    ELSE IF CtorOk("expr", l) THEN [id |-> m, op |-> "new", tag |-> "expr." \o LVal(l).k, ctor |-> "expr", l |-> l]
    ELSE GNew(Pick(LitKinds), m)
AsKinds == <<"varchar", "fixed_char", "fixed_binary", "uuid", "binary", "list", "struct", "decimal", "precision_timestamp">>
(* a type a literal may be asked to have: of its kind, with a parameter next to its own, or another *)
GAs(k, m) ==
    LET t == TLCEval(GLT(k, 2)) l == TLCEval(GLitOf(t, 2)) w == RE(1..6)
        near == CASE t.k \in {"fixed_char", "varchar", "fixed_binary"} -> [t EXCEPT !.p[3] = Pick(<<"0", "1", "2", "3", "5", "16">>), !.p[1] = LN(0)]
                  [] t.k = "list" -> [t EXCEPT !.c[1] = WithNull(@, LN(0)), !.p[1] = LN(0)]
                  [] t.k \in {"uuid", "binary"} -> (IF Chance(1, 2) THEN Nd("fixed_binary", <<"2", "0", NBytes(LVal(l).p[1])>>, <<>>) ELSE T0("uuid", LN(0)))
                  [] OTHER -> WithNull(t, LN(0))
        u == TLCEval(CASE LVal(l).k = "null" -> t [] w = 1 -> t [] w <= 4 -> near [] OTHER -> GLT(Pick(AsKinds), 1)) IN
    [id |-> m, op |-> "as", tag |-> t.k, l |-> l, t |-> u]
GScn(m) ==
    LET w == m % 10 k == Cyc(m, LitKinds) IN
    IF w < 5 THEN LET l == TLCEval(GLit(k, RE(1..4))) IN [id |-> m, op |-> "rt", tag |-> LVal(l).k, l |-> l]
    ELSE IF w < 8 THEN GNew(k, m)
    ELSE IF w = 8 THEN GAs(IF Chance(1, 2) THEN Pick(AsKinds) ELSE k, m)
    ELSE LET t == TLCEval(GLT(k, 2)) l == TLCEval(GLitOf(t, 2)) u == TLCEval(IF Chance(1, 2) THEN t ELSE IF Chance(1, 2) THEN WithNull(t, IF t.p[1] = "1" THEN "2" ELSE "1") ELSE GLT(k, 1)) IN
         [id |-> m, op |-> "mix", tag |-> LVal(l).k, l |-> l, m |-> TLCEval(GLitOf(u, 2))]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: the denoted type is a well-formed type; normalising is idempotent and keeps the denoted type. *)
Law == sc.op \in {"rt", "new"} => /\ WFT(TypeOfLit(sc.l))
                                  /\ NormLit(NormLit(sc.l)) = NormLit(sc.l)
                                  /\ TypeOfLit(NormLit(sc.l)) = TypeOfLit(sc.l)
                                  /\ EmptyAgrees(sc.l)
=============================================================================
