----------------------------- MODULE TypesJudge -----------------------------
EXTENDS Types, Judge

B(x) == ToString(x)
RtVerdict(e) ==
    LET t == NormT(e.t) k == "type." \o e.t.k IN
       Must(e.st = "ok", "P01", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(e.obs = t, "P01", k \o ".read", "read as " \o ToString(e.obs))
    \o Must(e.out = t, "P01", k \o ".roundtrip", "written as " \o ToString(e.out))
    \o Must(e.out2 = t, "P01", k \o ".toproto", "ToProto method writes " \o ToString(e.out2))
    \o Must(e.arg = t, "P01", k \o ".funcarg", "as function argument " \o ToString(e.arg))
    \o Must(e.nul = t.p[1] /\ e.tvr = t.p[2], "P01", k \o ".accessors", e.nul \o " " \o e.tvr)
    \o Must(e.eq = "true", "P01", k \o ".notequal", "type read back is not equal to the original")
    \o Must(e.insame = e.t, "P01", k \o ".input", "the input message was altered")
    \o Must(e.st2 = "ok", "P01", k \o ".libcall", e.st2 \o " " \o e.msg2)
    \o IF e.st2 # "ok" THEN <<>> ELSE
       Must(e.lib = t, "P01", k \o ".libwrite", "written as " \o ToString(e.lib))
    \o Must(e.libeq = "true", "P01", k \o ".libnotequal", "type read back is not equal to the original")
EqVerdict(e) ==
    LET x == SameType(e.t, e.u) b == IF x THEN "true" ELSE "false" k == "equals." \o e.t.k IN
       Must(e.st = "ok", "P02", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(e.tu = b /\ e.ut = b, "P02", k \o ".wrong", "Equals gives " \o e.tu \o "/" \o e.ut \o " expected " \o b)
    \o Must(e.tt = "true", "P02", k \o ".irreflexive", "not equal to itself")
    \o Must(e.pp = b \o b \o b \o b \o b \o b \o b, "P02", k \o ".read", "Equals on types read from messages gives " \o e.pp \o " expected " \o b)
RECURSIVE HistVerdict(_, _, _)
HistVerdict(e, pool, j) ==
    IF j > Len(e.steps) THEN <<>> ELSE
    LET st == e.steps[j] o == e.obs[j] new == TLCEval(Derive(pool, st)) exp == TLCEval(Append(pool, new)) k == "derive." \o st.o IN
    IF o.st # "ok" THEN <<<<"P02", k \o ".call", o.st \o " " \o o.msg>>>>
    ELSE IF o.pool = exp THEN HistVerdict(e, exp, j + 1)
    ELSE IF SubSeq(o.pool, 1, Len(pool)) # pool THEN
       LET x == CHOOSE x \in DOMAIN pool : o.pool[x] # pool[x] IN
       <<<<"P02", k \o ".alias." \o pool[x].k, "step " \o B(j) \o " changed type " \o B(x) \o " to " \o ToString(o.pool[x])>>>>
    ELSE <<<<"P02", k \o ".result." \o new.k, "step " \o B(j) \o " gave " \o ToString(o.pool[Len(o.pool)])>>>>
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<IF e.op = "rt" THEN "P01" ELSE "P02", "type.hang", "no answer or fatal crash">>>> ELSE
    CASE e.op = "rt" -> RtVerdict(e)
      [] e.op = "eq" -> EqVerdict(e)
      [] e.op = "hist" -> HistVerdict(e, e.pool, 1)
=============================================================================
