------------------------------- MODULE Funcs -------------------------------
(* Function implementations: which argument lists they accept and which type they return.
   A definition d: [params: type expressions (or enum nodes), var: <<>> or <<min, max, consistency>> (max 0: no limit),
   null: "MIRROR" | "DECLARED_OUTPUT" | "DISCRETE", ret: type expression]; args: types, enum arguments being [k |-> "enum"]. *)
EXTENDS TypeExpr

UdtNames == <<"point", "A_b9">>                       \* anchors 1, 2 in every registry of these scenarios
Anchor(name) == ToString(CHOOSE j \in DOMAIN UdtNames : UdtNames[j] = name)

(* ---- a parameter fits an argument ---- *)
IntFits(p, v) == p.k = "var" \/ p.p[1] = v
(* s: "loose" ignores nullability, "deep" requires the declared nullability at every level, "outer" only outermost;
   nm: whether user-defined types have to be the named ones *)
RECURSIVE Fits(_, _, _, _)
FitsAll(ps, ts, s, nm) == Len(ps) = Len(ts) /\ \A j \in DOMAIN ps : Fits(ps[j], ts[j], s, nm)
Below(s) == IF s = "outer" THEN "loose" ELSE s
UdtParamFits(q, x, s, nm) ==
    CASE q.k = "num" -> x.k = "P:int" /\ x.p[1] = q.p[1]
      [] q.k = "str" -> x.k = "P:string" /\ x.p[1] = q.p[1]
      [] OTHER -> x.k = "P:type" /\ Fits(q, x.c[1], s, nm)
Fits(p, t, s, nm) ==
    IF p.k = "enum" \/ t.k = "enum" THEN p.k = t.k ELSE
    /\ s # "loose" => t.p[1] = p.p[1]
    /\ CASE p.k = "any" -> TRUE
         [] p.k = "udt" -> /\ t.k = "user_defined" /\ Len(t.c) = Len(p.c)
                           /\ nm => t.p[3] = Anchor(p.p[2])
                           /\ \A j \in DOMAIN p.c : UdtParamFits(p.c[j], t.c[j], Below(s), nm)
         [] p.k \in {"list", "map", "struct", "func"} -> t.k = p.k /\ FitsAll(p.c, t.c, Below(s), nm)
         [] p.k = "decimal" -> t.k = p.k /\ IntFits(p.c[1], t.p[3]) /\ IntFits(p.c[2], t.p[4])
         [] In(p.k, TInt) -> t.k = p.k /\ IntFits(p.c[1], t.p[3])
         [] OTHER -> t.k = p.k

(* ---- what an argument binds: <<kind, name, value>> in reading order ---- *)
RECURSIVE Binds(_, _)
BindsAll(ps, ts) == Flat([j \in 1..Min2(Len(ps), Len(ts)) |-> Binds(ps[j], ts[j])])
IntBind(p, v) == IF p.k = "var" THEN <<<<"int", p.p[1], v>>>> ELSE <<>>
Binds(p, t) ==
    CASE p.k = "any" -> <<<<"any", p.p[2], t>>>>
      [] p.k = "udt" -> BindsAll(SelectSeq(p.c, LAMBDA q : q.k \notin {"num", "str"}),
                                 Flat([j \in DOMAIN t.c |-> IF t.c[j].k = "P:type" THEN t.c[j].c ELSE <<>>]))
      [] p.k \in {"list", "map", "struct", "func"} -> BindsAll(p.c, t.c)
      [] p.k = "decimal" -> IntBind(p.c[1], t.p[3]) \o IntBind(p.c[2], t.p[4])
      [] In(p.k, TInt) -> IntBind(p.c[1], t.p[3])
      [] OTHER -> <<>>
BaseT(t) == IF t.k = "enum" THEN t ELSE WithNull(NormT(t), "2")
Agree(bs) == \A a, b \in DOMAIN bs :
    (bs[a][1] = bs[b][1] /\ bs[a][2] = bs[b][2]) =>
        IF bs[a][1] = "int" THEN bs[a][3] = bs[b][3] ELSE bs[a][2] = "any" \/ BaseT(bs[a][3]) = BaseT(bs[b][3])

(* ---- matching ---- *)
NP(d) == Len(d.params)
ParamAt(d, j) == d.params[Min2(j, NP(d))]
CountOk(d, n) == IF d.var = <<>> THEN n = NP(d)
                 ELSE LET v == n - (NP(d) - 1) IN v >= 0 /\ v >= d.var[1] /\ (d.var[2] = 0 \/ v <= d.var[2])
PosOk(d, j) == IF d.var = <<>> THEN j <= NP(d) ELSE d.var[2] = 0 \/ j <= NP(d) - 1 + d.var[2]
Strict(d, s) == IF d.null = "DISCRETE" THEN s ELSE "loose"
AllBinds(d, args) == BindsAll([j \in DOMAIN args |-> ParamAt(d, j)], args)
Match(d, args, s, nm) ==
    /\ CountOk(d, Len(args))
    /\ \A j \in DOMAIN args : Fits(ParamAt(d, j), args[j], Strict(d, s), nm)
    /\ d.var # <<>> /\ d.var[3] = "CONSISTENT" => \A j, k \in NP(d) .. Len(args) : BaseT(args[j]) = BaseT(args[k])
    /\ Agree(AllBinds(d, args))
MatchAt(d, t, j, s, nm) == j >= 1 /\ PosOk(d, j) /\ Fits(ParamAt(d, j), t, Strict(d, s), nm)
SelfAgree(p, t) == Fits(p, t, "loose", FALSE) => Agree(Binds(p, t))

(* ---- evaluating derivations: integers, "true"/"false", "err", "big" (outside int32), "?" (not followed) ---- *)
Lim == 2147483647
IsI(v) == v[1] = "i"
I(n) == <<"i", n>>
B(b) == <<"b", IF b THEN 1 ELSE 0>>
Err == <<"err", 0>>
Big == <<"big", 0>>
Unk == <<"?", 0>>
AbsI(n) == IF n < 0 THEN -n ELSE n
Quot(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Arith(op, a, b) ==
    CASE op = "+" -> IF (b > 0 /\ a > Lim - b) \/ (b < 0 /\ a < -Lim - b) THEN Big ELSE I(a + b)
      [] op = "-" -> IF (b < 0 /\ a > Lim + b) \/ (b > 0 /\ a < -Lim + b) THEN Big ELSE I(a - b)
      [] op = "*" -> IF a # 0 /\ b # 0 /\ AbsI(a) > Lim \div AbsI(b) THEN Big ELSE I(a * b)
      [] op = "/" -> IF b = 0 THEN Err ELSE I(Quot(a, b))
      [] op = "<" -> B(a < b) [] op = "<=" -> B(a <= b) [] op = ">" -> B(a > b) [] op = ">=" -> B(a >= b)
      [] op = "=" -> B(a = b) [] op = "!=" -> B(a # b)
RECURSIVE Ev(_, _)
Look(env, name) == IF \E j \in DOMAIN env : env[j][1] = name
                   THEN env[CHOOSE j \in DOMAIN env : env[j][1] = name /\ \A k \in DOMAIN env : env[k][1] = name => k <= j][2] ELSE Err
Ev(x, env) ==
    CASE x.k = "num" -> I(atoi(x.p[1]))
      [] x.k = "var" -> Look(env, x.p[1])
      [] x.k = "bin" -> LET a == Ev(x.c[1], env) b == Ev(x.c[2], env) IN
            IF a = Err \/ b = Err THEN Err
            ELSE IF a[1] \in {"big", "?"} \/ b[1] \in {"big", "?"} THEN Unk
            ELSE IF x.p[1] \in {"and", "or"} THEN
                IF IsI(a) \/ IsI(b) THEN Err ELSE B(IF x.p[1] = "and" THEN a[2] = 1 /\ b[2] = 1 ELSE a[2] = 1 \/ b[2] = 1)
            ELSE IF ~IsI(a) \/ ~IsI(b) THEN Err ELSE Arith(x.p[1], a[2], b[2])
      [] x.k = "not" -> LET a == Ev(x.c[1], env) IN IF a[1] = "b" THEN B(a[2] = 0) ELSE IF a = Unk THEN Unk ELSE Err
      [] x.k = "if" -> LET a == Ev(x.c[1], env) IN
            IF a[1] # "b" THEN (IF a = Unk THEN Unk ELSE Err) ELSE Ev(x.c[IF a[2] = 1 THEN 2 ELSE 3], env)
      [] x.k = "call" -> LET vs == [j \in DOMAIN x.c |-> Ev(x.c[j], env)] IN
            IF Len(vs) # (IF x.p[1] = "abs" THEN 1 ELSE 2) \/ \E j \in DOMAIN vs : vs[j] = Err \/ vs[j][1] = "b" THEN Err
            ELSE IF \E j \in DOMAIN vs : ~IsI(vs[j]) THEN Unk
            ELSE I(CASE x.p[1] = "abs" -> AbsI(vs[1][2]) [] x.p[1] = "min" -> Min2(vs[1][2], vs[2][2]) [] OTHER -> Max2(vs[1][2], vs[2][2]))
RECURSIVE Assigns(_, _)
Assigns(as, env) == IF as = <<>> THEN <<env, "ok">>
    ELSE LET v == Ev(Head(as).c[1], env) IN
         IF v = Err THEN <<env, "err">> ELSE Assigns(Tail(as), Append(env, <<Head(as).p[1], v>>))

(* ---- the return type: a type, or [k |-> "err"], or [k |-> "?"] ---- *)
ErrN == Nd("err", <<>>, <<>>)
UnkN == Nd("?", <<>>, <<>>)
RECURSIVE Ret(_, _, _)
BindOf(bs, name) == LET js == {j \in DOMAIN bs : bs[j][1] = "any" /\ bs[j][2] = name} IN
    IF js = {} THEN ErrN ELSE bs[CHOOSE j \in js : \A k \in js : j <= k][3]
IntOf(q, env) == IF q.k = "num" THEN I(atoi(q.p[1])) ELSE Look(env, q.p[1])
IntN(vs, mk) == IF \E j \in DOMAIN vs : vs[j][1] \in {"err", "big", "b"} THEN ErrN
                ELSE IF \E j \in DOMAIN vs : vs[j][1] = "?" THEN UnkN ELSE mk
Worst(cs, mk) == IF \E j \in DOMAIN cs : cs[j].k = "err" THEN ErrN ELSE IF \E j \in DOMAIN cs : cs[j].k = "?" THEN UnkN ELSE mk
Ret(r, env, bs) ==
    CASE r.k = "any" -> LET b == BindOf(bs, r.p[2]) IN
            IF b.k \in {"err", "enum"} THEN ErrN ELSE IF r.p[1] = "1" THEN WithNull(b, "1") ELSE b
      [] r.k = "udt" ->
            LET cs == [j \in DOMAIN r.c |-> CASE r.c[j].k = "num" -> Nd("P:int", r.c[j].p, <<>>)
                                             [] r.c[j].k = "str" -> Nd("P:string", r.c[j].p, <<>>)
                                             [] OTHER -> LET x == Ret(r.c[j], env, bs) IN IF x.k \in {"err", "?"} THEN x ELSE Nd("P:type", <<>>, <<x>>)]
            IN Worst(cs, Nd("user_defined", <<r.p[1], "0", Anchor(r.p[2])>>, cs))
      [] r.k \in {"list", "map", "struct", "func"} ->
            LET cs == [j \in DOMAIN r.c |-> Ret(r.c[j], env, bs)] IN Worst(cs, Nd(r.k, <<r.p[1], "0">>, cs))
      [] r.k = "decimal" \/ In(r.k, TInt) ->
            LET vs == [j \in DOMAIN r.c |-> IntOf(r.c[j], env)] IN
            IntN(vs, Nd(r.k, <<r.p[1], "0">> \o [j \in DOMAIN vs |-> ToString(vs[j][2])], <<>>))
      [] OTHER -> Nd(r.k, <<r.p[1], "0">>, <<>>)
IntEnv(bs) == LET is == SelectSeq(bs, LAMBDA b : b[1] = "int") IN [j \in DOMAIN is |-> <<is[j][2], I(atoi(is[j][3]))>>]
(* bindings come from the parameters; a variadic parameter binds through its first argument *)
Resolve(d, args) ==
    LET bs == BindsAll(d.params, args)
        env0 == IntEnv(bs)
        as == IF d.ret.k = "derive" THEN Assigns(Init1(d.ret.c), env0) ELSE <<env0, "ok">>
        r == IF as[2] = "err" THEN ErrN ELSE Ret(IF d.ret.k = "derive" THEN Last(d.ret.c) ELSE d.ret, as[1], bs)
        anyNullable == \E j \in DOMAIN args : args[j].k # "enum" /\ args[j].p[1] # "2"
    IN IF r.k \in {"err", "?"} THEN r
       ELSE IF d.null = "MIRROR" THEN WithNull(r, IF anyNullable THEN "1" ELSE "2") ELSE r
Final(d) == IF d.ret.k = "derive" THEN Last(d.ret.c) ELSE d.ret
RECURSIVE PosInts(_)
\* resulting lengths, precisions and scales that make sense
PosInts(t) == /\ In(t.k, Prec) => t.p[3] \in {ToString(j) : j \in 0..9}
              /\ t.k = "decimal" \/ In(t.k, Fixed) => \A j \in 3..Len(t.p) : atoi(t.p[j]) >= 0
              /\ \A j \in DOMAIN t.c : IF t.k = "user_defined" THEN (t.c[j].k = "P:type" => PosInts(t.c[j].c[1])) ELSE PosInts(t.c[j])

(* ---- generation ---- *)
GInts == <<"L1", "P", "S">>
GAnys == <<"any1", "any2">>
GG == [ints |-> GInts, anys |-> GAnys, any |-> TRUE, udts |-> UdtNames]
GConc == [ints |-> <<>>, anys |-> <<>>, any |-> FALSE, udts |-> UdtNames]
RECURSIVE Inst(_, _)
InstInt(q, env) == IF q.k = "num" THEN q.p[1] ELSE env.ints[q.p[1]]
(* a type that fits p; env: [ints: name -> value, anys: name -> type, disc: keep the declared nullability] *)
Inst(p, env) ==
    LET n == IF env.disc THEN p.p[1] ELSE TN(0) IN
    CASE p.k = "enum" -> Nd("enum", <<>>, <<>>)
      [] p.k = "any" -> WithNull(IF p.p[2] = "any" THEN Inst(TLCEval(GTE(GConc, 1)), [env EXCEPT !.disc = FALSE]) ELSE env.anys[p.p[2]], n)
      [] p.k = "udt" -> Nd("user_defined", <<n, "0", Anchor(p.p[2])>>, TLCEval([j \in DOMAIN p.c |->
            CASE p.c[j].k = "num" -> Nd("P:int", p.c[j].p, <<>>) [] p.c[j].k = "str" -> Nd("P:string", p.c[j].p, <<>>)
              [] OTHER -> Nd("P:type", <<>>, <<Inst(p.c[j], env)>>)]))
      [] p.k \in {"list", "map", "struct", "func"} -> Nd(p.k, <<n, "0">>, TLCEval([j \in DOMAIN p.c |-> Inst(p.c[j], env)]))
      [] p.k = "decimal" -> Nd(p.k, <<n, "0", InstInt(p.c[1], env), InstInt(p.c[2], env)>>, <<>>)
      [] In(p.k, TInt) -> Nd(p.k, <<n, "0", InstInt(p.c[1], env)>>, <<>>)
      [] OTHER -> Nd(p.k, <<n, "0">>, <<>>)
RECURSIVE Norm0(_)
\* nullability always stated
Norm0(t) == LET t1 == IF Len(t.p) > 0 /\ t.p[1] = "0" /\ t.k \notin {"P:int", "P:string", "P:bool", "P:enum"} THEN [t EXCEPT !.p[1] = "1"] ELSE t
            IN [t1 EXCEPT !.c = [j \in DOMAIN t.c |-> Norm0(t.c[j])]]
RECURSIVE VarClean(_, _)
\* no type variation where the parameter spells the type out
\* (whether a type variable takes an enumeration argument is left open)
VarClean(p, t) == \/ p.k = "any" /\ t.k # "enum"
                  \/ p.k = "enum"
                  \/ t.k = "enum" /\ p.k # "any"
                  \/ /\ t.k # "enum" /\ p.k # "any" /\ t.p[2] = "0"
                     /\ p.k \in {"list", "map", "struct", "func"} /\ t.k = p.k => \A j \in 1..Min2(Len(p.c), Len(t.c)) : VarClean(p.c[j], t.c[j])
                     /\ p.k = "udt" /\ t.k = "user_defined" => \A j \in 1..Min2(Len(p.c), Len(t.c)) :
                            p.c[j].k \notin {"num", "str"} /\ t.c[j].k = "P:type" => VarClean(p.c[j], t.c[j].c[1])
GVal(x) == Pick(<<"0", "1", "2", "3", "5", "6", "9">>)
GEnv(disc) == LET e0 == [ints |-> [L1 |-> GVal(0), P |-> GVal(0), S |-> GVal(0)], anys |-> [any1 |-> 0, any2 |-> 0], disc |-> FALSE]
                  a1 == TLCEval(Inst(TLCEval(GTE(GConc, 1)), e0))
                  a2 == TLCEval(Inst(TLCEval(GTE(GConc, 1)), e0))
              IN [e0 EXCEPT !.anys = [any1 |-> IF Chance(1, 6) THEN [a1 EXCEPT !.p[2] = IF a1.k = "func" THEN "0" ELSE "7"] ELSE a1, any2 |-> IF Chance(1, 4) THEN a1 ELSE a2], !.disc = disc]
RECURSIVE CountAny(_)
CountAny(t) == (IF t.k = "any" /\ t.p[2] = "any" THEN 1 ELSE 0) + FoldLeft(LAMBDA a, x : a + CountAny(x), 0, t.c)
RECURSIVE NamesIn(_)
NamesIn(t) == (IF t.k = "any" THEN {t.p[2]} ELSE IF t.k = "var" THEN {t.p[1]} ELSE {}) \cup UNION {NamesIn(t.c[j]) : j \in DOMAIN t.c}
EnumP == Nd("enum", <<"A">>, <<>>)
GDef(x) ==
    LET np == RE(1..3)
        var == TLCEval(IF Chance(1, 2) THEN <<>> ELSE LET mn == RE(0..2) IN <<mn, Pick(<<0, 0, mn, mn + 1, mn + 2>>), Pick(<<"CONSISTENT", "CONSISTENT", "INCONSISTENT">>)>>)
        gl == IF var # <<>> /\ var[3] = "INCONSISTENT" THEN [GG EXCEPT !.ints = <<>>, !.anys = <<>>] ELSE GG
        ps == TLCEval([j \in 1..np |-> IF j = np THEN GTE(gl, 2) ELSE IF Chance(1, 8) THEN EnumP ELSE GTE(GG, 2)])
        bound == UNION {NamesIn(ps[j]) : j \in DOMAIN ps}
        ints == SelectSeq(GInts, LAMBDA v : v \in bound)
        anys == SelectSeq(GAnys, LAMBDA v : v \in bound)
        ca == FoldLeft(LAMBDA a, p : a + CountAny(p), 0, ps)
        unb == Chance(1, 12)
        gr == [ints |-> IF unb THEN GInts ELSE ints, anys |-> IF unb THEN GAnys ELSE anys, any |-> ca = 1, udts |-> UdtNames]
        ret == TLCEval(IF Chance(1, 3) THEN GDerive(gr, 1) ELSE IF Chance(1, 3) /\ gr.anys # <<>> THEN Nd("any", <<TN(0), Pick(gr.anys)>>, <<>>) ELSE GTE(gr, 2))
    IN [params |-> ps, var |-> var, null |-> Pick(<<"MIRROR", "DECLARED_OUTPUT", "DISCRETE">>), ret |-> ret]
GArgs(d) ==
    LET env == TLCEval(GEnv(d.null = "DISCRETE"))
        lo == IF d.var = <<>> THEN NP(d) ELSE NP(d) - 1 + d.var[1]
        hi == IF d.var = <<>> THEN NP(d) ELSE IF d.var[2] = 0 THEN lo + 2 ELSE NP(d) - 1 + d.var[2]
        n == IF Chance(1, 10) THEN Max2(0, RE((lo - 1)..(hi + 1))) ELSE RE(lo..hi)
        as == TLCEval([j \in 1..n |-> Inst(ParamAt(d, j), env)])
        \* consistent variadic arguments are instances of one type
        bs == IF d.var # <<>> /\ d.var[3] = "CONSISTENT" /\ Chance(4, 5) THEN [j \in 1..n |-> IF j > NP(d) THEN WithNull(as[NP(d)], IF d.null = "DISCRETE" THEN as[NP(d)].p[1] ELSE TN(0)) ELSE as[j]] ELSE as
        w == RE(1..6)
    IN TLCEval(CASE n > 0 /\ w = 1 -> LET j == RE(1..n) IN [bs EXCEPT ![j] = IF @.k = "enum" THEN T0("i32", "2") ELSE Norm0(MutT(@))]
         [] n > 0 /\ w = 2 /\ d.null # "MIRROR" -> LET j == RE(1..n) IN [bs EXCEPT ![j] = IF @.k = "enum" THEN @ ELSE WithNull(@, TN(0))]
         [] n > 1 /\ w = 3 -> LET j == RE(1..n - 1) IN [bs EXCEPT ![j] = bs[j + 1], ![j + 1] = bs[j]]
         [] n > 0 /\ w = 4 /\ Chance(1, 3) -> LET j == RE(1..n) IN [bs EXCEPT ![j] = LET e2 == TLCEval(GEnv(d.null = "DISCRETE")) IN Inst(ParamAt(d, j), e2)]
         [] n > 0 /\ w = 5 /\ Chance(1, 8) -> LET j == RE(1..n) IN [bs EXCEPT ![j] = IF ParamAt(d, j).k = "any" THEN @ ELSE Nd("enum", <<>>, <<>>)]
         [] OTHER -> bs)
=============================================================================
