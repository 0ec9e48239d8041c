------------------------------- MODULE RelsGen -------------------------------
EXTENDS Rels
VARIABLES n, sc
Alike(t, cx, f) == IF Rex(f).k = "literal" THEN E(GLitOf(TypeOfLit(Rex(f)), 1)) ELSE IF Known(t) /\ t.k # "func" THEN (IF Chance(1, 2) THEN E(GLitOf(t, 1)) ELSE GE(t, cx, 1)) ELSE E(GLitOf(T0("i32", "2"), 1))
OutCx(r) == LET ins == InputsR(r) IN IF Op(r).k = "read" THEN (IF Has(Op(r), "virtual_table") THEN NoCx ELSE Struct0(BS(Op(r)))) ELSE Struct0(Flat([j \in DOMAIN ins |-> SchemaR(ins[j])]))
Depth(x) == IF Thorough THEN Pick(<<1, 2, 3, 3>>) ELSE Pick(<<1, 2, 2, 3>>)
(* new inputs for a relation: the same ones or others with the same columns *)
GInputs(r) == LET ins == InputsR(r) IN TLCEval([j \in DOMAIN ins |-> LET w == Chance(1, 2) IN IF w THEN <<>> ELSE <<GRT(SchemaR(ins[j]), 1)>>])
NoDup(s) == \A i, j \in DOMAIN s : i # j => NormE(s[i].f) # NormE(s[j].f)
GRewrite(m) ==
    LET r == TLCEval(GW(IF m % 5 = 0 THEN "aggregate" ELSE TopK(m), Pick(<<1, 2>>))) es == TLCEval(ExprsOf(NormR(r))) raw == ExprsOf(r) fs == TLCEval(IF Len(raw) = Len(es) THEN raw ELSE es) cx == TLCEval(OutCx(r))
        s == TLCEval(IF es = <<>> \/ Chance(1, 4) THEN <<>> ELSE [j \in 1..RE(1..2) |-> LET f == TLCEval(Pick(fs)) IN [f |-> f, t |-> TLCEval(Alike(TypeOfE(f, cx), cx, f))]])
        keep == TLCEval(Chance(2, 3)) ins == TLCEval(IF keep THEN [j \in DOMAIN InputsR(r) |-> <<>>] ELSE GInputs(r))
        how == TLCEval(Pick(<<"rewrite", "rewrite", "rewrite", "copy", "fail", "less", "more">>))
        hh == IF (how = "fail" /\ es = <<>>) \/ (how \in {"less", "more"} /\ (InputsR(r) = <<>> \/ Op(r).k \in {"set", "extension_multi"})) THEN "copy" ELSE how IN
    [id |-> m, op |-> "copy", tag |-> hh \o "." \o Op(r).k, how |-> hh, r |-> r, s |-> IF NoDup(s) THEN s ELSE SubSeq(s, 1, 1), ins |-> ins,
     failat |-> IF es = <<>> THEN 0 ELSE RE(1..Len(es)), fns |-> FnDecls]
(* ---- histories over a pool of relations ---- *)
GMap(c, w) == LET sz == RE(0..(c + 1)) IN
    IF c = 0 THEN (IF w THEN <<>> ELSE <<0>>)
    ELSE LET m == TLCEval([j \in 1..sz |-> RE(0..(c - 1))]) IN
         IF w THEN m ELSE m \o <<Pick(<<-1, c, c + 1, 2147483647>>)>>
Top0 == {"filter", "fetch"}
Apply(pool, st) ==
    LET r == pool[st.h] IN
    CASE st.a = "remap" -> IF RemapOk(r, st.m) THEN Append(pool, Remap(r, st.m)) ELSE pool
      [] st.a = "copy" -> Append(pool, IF InputsR(r) = <<>> THEN r ELSE WithInputs(r, InputsR(r)))
      [] st.a = "rewrite" -> Append(pool, MapExprs(r, LAMBDA e : E(Msg("literal", <<Sc("boolean", "false")>>))))
      [] st.a = "fetch" -> Append(pool, R(Msg("fetch", <<As("input", r), Sc("offset", "3"), Sc("count", "4")>>)))
      [] st.a = "cross" -> Append(pool, R(Msg("cross", <<As("left", r), As("right", pool[st.g])>>)))
      [] st.a = "over" -> Append(pool, WithInputs(pool[st.g], [j \in DOMAIN InputsR(pool[st.g]) |-> r]))
      [] OTHER -> pool
Unary(pool) == {j \in DOMAIN pool : Len(InputsR(pool[j])) = 1}
GStep(pool) ==
    LET h == TLCEval(IF Chance(1, 2) THEN Len(pool) ELSE RE(1..Len(pool))) g == TLCEval(RE(1..Len(pool))) c == Len(SchemaR(pool[h]))
        w == RE(1..12) a == IF w <= 7 \/ (w \in {9, 11} /\ Op(pool[1]).k = "write") THEN "remap" ELSE IF w = 8 THEN "copy" ELSE IF w = 9 THEN "fetch" ELSE IF w = 10 THEN "schema" ELSE IF w = 11 /\ Len(SchemaR(pool[h])) + Len(SchemaR(pool[g])) < 16 THEN "cross" ELSE "remap" IN
    [a |-> a, h |-> h, g |-> g, m |-> TLCEval(GMap(c, Chance(4, 5)))]
RECURSIVE GSteps(_, _, _)
GSteps(pool, k, acc) == IF k = 0 THEN acc ELSE LET st == TLCEval(GStep(pool)) IN GSteps(TLCEval(Apply(pool, st)), k - 1, Append(acc, st))
GPool(m) == LET r == TLCEval(GW(TopK(m), Pick(<<1, 1, 2>>))) k == IF Thorough THEN RE(4..8) ELSE RE(3..6) IN
    [id |-> m, op |-> "pool", tag |-> Op(r).k, r |-> r, steps |-> TLCEval(GSteps(<<r>>, k, <<>>)), fns |-> FnDecls]
GScn(m) == LET p == Prop IN
    IF p = "P17" THEN GRewrite(m)
    ELSE IF p = "P16" THEN GPool(m)
    ELSE IF p = "P14" /\ m % 4 = 0 THEN [id |-> m, op |-> "plan", tag |-> "plan", body |-> TLCEval(GPlan(m \div 4)), fns |-> FnDecls]
    ELSE IF p = "P14" /\ m % 16 = 1 THEN [id |-> m, op |-> "wire", tag |-> "undecoded", r |-> TLCEval(GUndecoded(0)), fns |-> FnDecls]
    ELSE IF p \in {"P14", "P15", "P25"} /\ m % 16 = 2 THEN [id |-> m, op |-> "mask", tag |-> "mask", r |-> TLCEval(GMasked(p = "P15")), fns |-> FnDecls]
    ELSE LET r == TLCEval(GW(TopK(m), Depth(0))) IN [id |-> m, op |-> "wire", tag |-> Op(r).k, r |-> r, fns |-> FnDecls]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: normalising is idempotent and keeps the schema; remaps compose; replacing inputs by themselves is nothing. *)
Law ==
    /\ sc.op = "wire" =>
        /\ NormR(NormR(sc.r)) = NormR(sc.r)
        /\ SchemaKnown(NormR(sc.r)) => SchemaR(NormR(sc.r)) = SchemaR(sc.r) /\ SchemaR(NormEmit(sc.r)) = SchemaR(sc.r)
        /\ Op(sc.r).k # "extension_multi" => WithInputs(sc.r, InputsR(sc.r)) = sc.r
        /\ MapExprs(sc.r, LAMBDA e : e) = sc.r
        /\ Len(ExprsOf(MapExprs(sc.r, LAMBDA e : E(Msg("literal", <<Sc("i32", "99")>>))))) = Len(ExprsOf(sc.r))
        /\ \A x \in {ExprsOf(MapExprs(sc.r, LAMBDA e : E(Msg("literal", <<Sc("i32", "99")>>))))} : \A j \in DOMAIN x : x[j] = E(Msg("literal", <<Sc("i32", "99")>>))
    /\ sc.op = "pool" => \A j \in DOMAIN sc.steps : LET m == sc.steps[j].m r == sc.r IN
        RemapOk(r, m) => /\ SchemaR(Remap(r, m)) = [i \in DOMAIN m |-> SchemaR(r)[m[i] + 1]]
                         /\ \A k \in DOMAIN sc.steps : LET m2 == sc.steps[k].m IN
                                RemapOk(Remap(r, m), m2) => Remap(Remap(r, m), m2) = Remap(r, [i \in DOMAIN m2 |-> m[m2[i] + 1]])
=============================================================================
