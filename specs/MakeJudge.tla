------------------------------ MODULE MakeJudge ------------------------------
EXTENDS Make, Judge
Prop24 == "P24"
ArgTys(b, x, ctx, sch) == [i \in DOMAIN x.args |-> LET r == Mk(b, x.args[i], ctx, sch) IN r.t]
StepV(b, s, o, sch) ==
    LET r == TLCEval(Mk(b, s.i, <<>>, sch)) x == b[s.i] k == "make." \o x.k \o (IF x.k \in {"fn", "cust"} THEN "." \o x.kind ELSE "") IN
    Must(o.st \in {"ok", "err"}, Prop24, k \o ".crash", o.msg)
    \o Must(o.leak = "no", Prop24, k \o ".scope", "a reference to the parameters of a lambda that is not there is built afterwards: " \o o.leak)
    \o (IF r.st = "open" \/ o.st \notin {"ok", "err"} THEN <<>> ELSE
        Must((o.st = "ok") = (r.st = "ok"), Prop24, k \o (IF r.st = "ok" THEN ".refused" ELSE ".accepted"), o.st \o " " \o o.msg)
        \o IF o.st # "ok" \/ r.st # "ok" THEN <<>> ELSE
           Must(NormT(o.t) = NormT(r.t), Prop24, k \o ".type", "type " \o ToString(o.t) \o " expected " \o ToString(r.t))
        \o Must(NormE(o.e) = NormE(r.e), Prop24, k \o ".written", "written as " \o ToString(o.e) \o " expected " \o ToString(r.e))
        \o Must(o.back = "" /\ NormE(o.re) = NormE(o.e), Prop24, k \o ".readback", o.back \o " read back as " \o ToString(o.re))
        \o (IF o.agg = "yes" THEN <<>> ELSE Must((o.scalar = "true") = IsScalarE(r.e), Prop24, k \o ".isscalar", "IsScalar " \o o.scalar))
        \o (IF x.k \notin {"fn", "cust"} THEN <<>> ELSE
              Must(o.acc.id = x.u \o "#" \o r.f /\ o.acc.name = r.f /\ o.acc.nargs = Len(x.args), Prop24, k \o ".names", ToString(o.acc))
           \o Must([i \in DOMAIN o.acc.ts |-> NormT(o.acc.ts[i])] = [i \in DOMAIN x.args |-> NormT(ArgTys(b, x, <<>>, sch)[i])], Prop24, k \o ".argtypes", ToString(o.acc.ts))
           \o Must(o.acc.opts = x.opts, Prop24, k \o ".options", ToString(o.acc.opts))
           \o (IF x.kind = "scalar" THEN <<>> ELSE Must(o.acc.ph = x.ph /\ o.acc.inv = x.inv, Prop24, k \o ".phase", ToString(o.acc)))))
    \o (IF o.st # "ok" THEN <<>> ELSE Must(o.later = o.e, Prop24, k \o ".later", "later building changed it to " \o ToString(o.later)))
RECURSIVE StepsV(_, _, _, _, _)
StepsV(b, ss, os, sch, j) ==
    IF j > Len(ss) THEN <<>>
    ELSE IF ss[j].op = "set" THEN StepsV(Put(b, ss[j]), ss, os, sch, j + 1)
    ELSE StepV(b, ss[j], os[j], sch) \o StepsV(b, ss, os, sch, j + 1)
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P24", "make.hang", "no answer or fatal crash">>>>
    ELSE IF e.load # "" THEN <<<<"P24", "make.load", e.load>>>>
    ELSE StepsV(e.b, e.steps, e.obs, Struct0(e.ts), 1)
=============================================================================
