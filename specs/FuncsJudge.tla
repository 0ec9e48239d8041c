----------------------------- MODULE FuncsJudge -----------------------------
EXTENDS Funcs, Judge
Odd(d) == \E j \in DOMAIN d.params : d.params[j].k = "type"
Clear(d, args) == ~Odd(d) /\  \A j \in DOMAIN args : VarClean(ParamAt(d, j), args[j])
(* the answer is judged when the readings of nullability below functions and user-defined types do not differ *)
Verdict3(acc, deep, outer, key) ==
    IF deep THEN Must(acc, "P04", key \o ".refused", "an argument list that fits is refused")
    ELSE IF ~outer THEN Must(~acc, "P04", key \o ".accepted", "an argument list that does not fit is accepted") ELSE <<>>
NoPanic(o, prop, key) == Must(o.st \in {"ok", "err"}, prop, key, o.msg)
ListV(e, args, o) ==
    LET d == e.d
        deep == ~Odd(d) /\ Match(d, args, "deep", TRUE)
        outer == ~Odd(d) /\ Match(d, args, "outer", TRUE)
        anon == ~Odd(d) /\ Match(d, args, "outer", FALSE)
        k == d.null \o (IF d.var = <<>> THEN "" ELSE ".variadic." \o d.var[3])
        acc == o.m.st = "ok" /\ o.m.ans = "true"
        res == IF IsNil(d.ret) THEN Nd("err", <<>>, <<>>) ELSE Resolve(d, args)
        got == o.r1
    IN NoPanic(o.m, "P04", "match.panic") \o NoPanic(got, "P05", "resolve.panic")
    \o (IF ~Clear(d, args) THEN <<>>
        ELSE (IF anon /\ ~outer THEN Must(~acc, "P04", "match.udtname", "a user-defined type of another name is accepted")
              ELSE Verdict3(acc, deep, outer, "match." \o k))
        \o (IF ~anon THEN Must(got.st # "ok", "P05", "resolve.unaccepted", "a return type for arguments that do not fit: " \o ToString(got.t)) ELSE <<>>)
        \o (IF deep THEN
              IF res.k = "err" THEN Must(got.st # "ok", "P05", "resolve.invented", "a return type although the definition denotes none: " \o ToString(got.t))
              ELSE IF res.k = "?" \/ ~PosInts(res) THEN <<>>
              ELSE Must(got.st = "ok", "P05", "resolve.refused." \o d.ret.k, got.msg)
                   \o (IF got.st # "ok" THEN <<>> ELSE
                       Must(\/ NormT(got.t) = NormT(res)
                            \* open in the Substrait specification: nullability of a required type variable bound to a nullable type
                            \/ d.null # "MIRROR" /\ Final(d).k = "any" /\ Final(d).p[1] = "2" /\ NormT(got.t) = WithNull(NormT(res), "2"),
                            "P05", "resolve." \o d.null \o "." \o d.ret.k, "resolved " \o ToString(got.t) \o " expected " \o ToString(res)))
            ELSE <<>>))
    \o Must(o.same = "true", "P05", "resolve.repeat", "a second resolution differs")
    \o Flat([j \in DOMAIN o.at |-> LET a == o.at[j] pos == a.pos + 1
                                       t == IF pos >= 1 /\ pos <= Len(args) THEN args[pos] ELSE e.probe IN
            NoPanic(a, "P04", "matchat.panic")
            \o (IF Odd(d) \/ (pos >= 1 /\ (~VarClean(ParamAt(d, pos), t) \/ ~SelfAgree(ParamAt(d, pos), t))) THEN <<>>
                ELSE IF MatchAt(d, t, pos, "outer", FALSE) /\ ~MatchAt(d, t, pos, "outer", TRUE)
                THEN Must(~(a.st = "ok" /\ a.ans = "true"), "P04", "match.udtname", "a user-defined type of another name is accepted")
                ELSE Verdict3(a.st = "ok" /\ a.ans = "true", MatchAt(d, t, pos, "deep", TRUE), MatchAt(d, t, pos, "outer", TRUE), "matchat." \o k))])
(* the counts of arguments a definition admits; a variadic last parameter counts as many arguments as its declaration admits *)
MinArgs(d) == IF d.var = <<>> THEN Len(d.params) ELSE Len(d.params) - 1 + d.var[1]
MaxArgs(d) == IF d.var = <<>> THEN ToString(Len(d.params)) ELSE IF d.var[2] = 0 THEN "unlimited" ELSE ToString(Len(d.params) - 1 + d.var[2])
(* the known reading that counts the variadic parameter once more *)
PlusCounts(d) == <<ToString(Len(d.params) + d.var[1]), ToString(Len(d.params) + d.var[2])>>
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P04", "fn.hang", "no answer or fatal crash">>, <<"P05", "fn.hang", "no answer or fatal crash">>>>
    ELSE IF e.load.st # "ok" THEN <<<<"P04", "fn.load", e.load.msg>>>>
    ELSE (IF e.d.var # <<>> /\ e.d.params = <<>> THEN <<>> ELSE
            Must(e.cnt = <<ToString(MinArgs(e.d)), MaxArgs(e.d)>>, "P04", IF e.d.var # <<>> /\ e.cnt = PlusCounts(e.d) THEN "match.counts.variadic" ELSE "match.counts",
                 "argument counts " \o ToString(e.cnt) \o " for " \o ToString(Len(e.d.params)) \o " parameters, variadic " \o ToString(e.d.var)))
         \o Flat([j \in DOMAIN e.lists |-> ListV(e, e.lists[j], e.out[j])])
         \o Must(e.after = e.before, "P05", "resolve.alters", "the definition reads " \o ToString(e.after) \o " afterwards")
         \o Must(e.reg = <<"point", "A_b9">>, "P05", "resolve.registry", "anchors in use " \o ToString(e.reg))
=============================================================================
