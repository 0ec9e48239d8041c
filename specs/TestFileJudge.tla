---------------------------- MODULE TestFileJudge ----------------------------
EXTENDS TestFile, Judge
P == "P22"
S(x) == ToString(x)
MicroK(k) == CASE k = "precision_time" -> "time" [] k = "precision_timestamp" -> "timestamp" [] k = "precision_timestamp_tz" -> "timestamp_tz" [] OTHER -> ""
(* a value in a list or a column: the declared type and value *)
RECURSIVE CellIs(_, _, _)
CellIs(got, want, k) ==
    LET t == want.c[1] v == want.c[2] g == got.c[2] IN
    IF IsNil(t) THEN Must(g = v, P, k \o ".untyped", "read as " \o S(g) \o " expected " \o S(v))
    ELSE IF v.k = "null" THEN Must(g.k = "null" /\ SameType(got.c[1], t), P, k \o ".null", "read as " \o S(got))
    ELSE IF MicroK(t.k) # "" /\ got.c[1].k = MicroK(t.k) THEN Must(FALSE, P, k \o ".precision", "value of " \o S(t) \o " is a " \o got.c[1].k)
            \o Must(got.c[1].p = <<t.p[1], "0">> /\ g.k = "inst" /\ g.p[1] = v.p[1] /\ g.p[2] = v.p[2], P, k \o ".precvalue", "read as " \o S(g) \o " expected " \o S(v))
    ELSE IF v.k = "list" THEN Must(g.k = "list" /\ Len(g.c) = Len(v.c), P, k \o ".list", "read as " \o S(g) \o " expected " \o S(v))
            \o (IF g.k = "list" /\ Len(g.c) = Len(v.c) THEN Flat([j \in DOMAIN v.c |-> CellIs(g.c[j], v.c[j], k)]) ELSE <<>>)
    ELSE Must(g = v, P, k \o ".value", "read as " \o S(g) \o " expected " \o S(v)) \o Must(SameType(got.c[1], t), P, k \o ".type", "type " \o S(got.c[1]) \o " expected " \o S(t))
LitIs(got, want, k) ==
    IF got.k # "lit" THEN Must(FALSE, P, k \o ".none", "no literal: " \o S(got)) ELSE
    LET v == want.c[3] g == got.c[3] IN
       Must(got.p = want.p, P, k \o ".text", "text " \o S(got.p) \o " expected " \o S(want.p))
    \o Must(got.c[1] = want.c[1], P, k \o ".type", "type " \o S(got.c[1]) \o " expected " \o S(want.c[1]))
    \o (IF v.k = "list" THEN
            Must(g.k = "list" /\ Len(g.c) = Len(v.c), P, k \o ".list", "read as " \o S(g) \o " expected " \o S(v))
            \o (IF g.k = "list" /\ Len(g.c) = Len(v.c) THEN Flat([j \in DOMAIN v.c |-> CellIs(g.c[j], v.c[j], IF k = "tf.agg" THEN "tf.cell" ELSE "tf.item")]) ELSE <<>>)
            \o Must(SameType(got.c[2], want.c[2]), P, k \o ".littype", "literal type " \o S(got.c[2]))
        ELSE Must(g = v, P, k \o ".value", "read as " \o S(g) \o " expected " \o S(v)) \o Must(SameType(got.c[2], want.c[2]), P, k \o ".littype", "literal type " \o S(got.c[2]) \o " expected " \o S(want.c[2])))
AaIs(got, want) ==
       Must(got.p = want.p, P, "tf.agg.ref", "argument " \o S(got.p) \o " expected " \o S(want.p))
    \o Must(got.p = want.p => got.c[1] = want.c[1], P, "tf.agg.coltype", "column type " \o S(got.c[1]) \o " expected " \o S(want.c[1]))
    \o (IF IsNil(want.c[2]) \/ got.p # want.p THEN <<>> ELSE LitIs(got.c[2], want.c[2], "tf.agg"))
ColsIs(got, want, k) ==
       Must(Len(got.c) = Len(want.c), P, k \o ".columns", S(Len(got.c)) \o " columns, expected " \o S(Len(want.c)))
    \o (IF Len(got.c) # Len(want.c) THEN <<>> ELSE Flat([x \in DOMAIN want.c |->
            Must(Len(got.c[x].c) = Len(want.c[x].c), P, k \o ".rows", S(Len(got.c[x].c)) \o " rows, expected " \o S(Len(want.c[x].c)))
            \o (IF Len(got.c[x].c) # Len(want.c[x].c) THEN <<>> ELSE Flat([j \in DOMAIN want.c[x].c |-> CellIs(got.c[x].c[j], want.c[x].c[j], "tf.cell")]))]))
SameOpts(a, b) == Len(a) = Len(b) /\ {a[j] : j \in DOMAIN a} = {b[j] : j \in DOMAIN b}
CaseIs(got, want) ==
       Must(got.p = want.p, P, "tf.case", "case " \o S(got.p) \o " expected " \o S(want.p))
    \o Must(Len(got.c[1].c) = Len(want.c[1].c) /\ Len(got.c[2].c) = Len(want.c[2].c), P, "tf.args", S(Len(got.c[1].c)) \o "+" \o S(Len(got.c[2].c)) \o " arguments")
    \o (IF Len(got.c[1].c) = Len(want.c[1].c) THEN Flat([j \in DOMAIN want.c[1].c |-> LitIs(got.c[1].c[j], want.c[1].c[j], "tf.arg")]) ELSE <<>>)
    \o (IF Len(got.c[2].c) = Len(want.c[2].c) THEN Flat([j \in DOMAIN want.c[2].c |-> AaIs(got.c[2].c[j], want.c[2].c[j])]) ELSE <<>>)
    \o (IF want.c[3].k = "lit" THEN LitIs(got.c[3], want.c[3], "tf.result") ELSE Must(got.c[3].k = want.c[3].k, P, "tf.result.kind", "result " \o S(got.c[3]) \o " expected " \o want.c[3].k))
    \o Must(SameOpts(got.c[4].c, want.c[4].c), P, "tf.options", "options " \o S(got.c[4].c) \o " expected " \o S(want.c[4].c))
    \o ColsIs(got.c[5], want.c[5], "tf.table")
    \o Must(got.c[6] = want.c[6], P, "tf.coltypes", "column types " \o S(got.c[6].c) \o " expected " \o S(want.c[6].c))
(* the URN of an include *)
Urn(b) == CASE b = "/extensions/functions_a.yaml" -> "extension:io.substrait:functions_a" [] b = "/extensions/x.yaml" -> "extension:io.substrait:x"
            [] b = "/extensions/set_b.yaml" -> "extension:io.substrait:set_b" [] OTHER -> b
(* the column of the table as it is passed: nullable when it holds a null *)
RefT(a, c) == LET i == atoi(a.p[4]) + 1 IN IF i <= Len(c.c[6].c) /\ ~IsNil(c.c[6].c[i]) THEN c.c[6].c[i] ELSE a.c[1]
InvArgIs(got, a, c) ==
    IF a.k = "aa" /\ a.p[1] = "col" THEN Must(got = Nd("ref", <<a.p[4]>>, <<RefT(a, c)>>), P, "tf.invoke.ref", "passes " \o S(got) \o " for column " \o a.p[4] \o " of type " \o S(RefT(a, c)))
    ELSE LET l == IF a.k = "aa" THEN a.c[2] ELSE a IN
         IF l.c[1].k = "enum" THEN Must(got = Nd("enum", l.c[3].p, <<>>), P, "tf.invoke.enum", "passes " \o S(got))
         ELSE IF got.k # "value" THEN Must(FALSE, P, "tf.invoke.arg", "passes " \o S(got)) ELSE LitIs(Nd("lit", l.p, <<l.c[1]>> \o got.c), l, "tf.invoke.arg")
AnyKey(c) == c.p[3] \o ":" \o JoinStr([j \in DOMAIN CArgs(c) |-> IF ArgT(CArgs(c)[j]).k = "enum" THEN "req" ELSE "any"], "_")
InvIs(got, c, key, k) ==
    IF got.k # "inv" THEN Must(FALSE, P, k \o ".refused", S(got)) ELSE
       Must(got.p = <<Urn(c.p[1]), key>>, P, k \o ".function", "calls " \o S(got.p) \o " expected " \o key)
    \o Must(Len(got.c[1].c) = Len(CArgs(c)), P, k \o ".nargs", S(Len(got.c[1].c)) \o " arguments")
    \o (IF Len(got.c[1].c) = Len(CArgs(c)) THEN Flat([j \in DOMAIN CArgs(c) |-> InvArgIs(got.c[1].c[j], CArgs(c)[j], c)]) ELSE <<>>)
    \o Must(SameOpts(got.c[2].c, c.c[4].c), P, k \o ".options", "options " \o S(got.c[2].c))
Printable(c) == ~Lossy(c)
ObsIs(o, c) ==
       CaseIs(o.c, c)
    \o Must(o.o = "", P, "tf.call", o.o)
    \o (IF o.o # "" THEN <<>> ELSE
       Must(o.id = <<Urn(c.p[1]), Key(c), Key(c)>>, P, "tf.id", "function " \o S(o.id) \o " expected " \o Key(c))
    \o Must(o.types.c = [j \in DOMAIN CArgs(c) |-> ArgT(CArgs(c)[j])], P, "tf.argtypes", S(o.types.c))
    \o InvIs(o.exact, c, Key(c), "tf.exact")
    \o InvIs(o.any, c, AnyKey(c), "tf.any")
    \o (IF Data(c).k = "any" THEN <<>> ELSE IF Data(c).k = "err" THEN Must(o.data.k = "err", P, "tf.data.scalar", "columns of a scalar case") ELSE
        IF o.data.k # "cols" THEN Must(FALSE, P, "tf.data", S(o.data)) ELSE ColsIs(o.data, Data(c), "tf.data"))
    \o (IF Printable(c) /\ (c.c[6].c = <<>> \/ AllTyped(c)) THEN
            Must(o.again.k = "case", P, "tf.print.unreadable", o.txt \o ": " \o S(o.again))
            \o (IF o.again.k = "case" THEN Must(Mixed(c) \/ LET a == NoText(o.again) b == NoText(o.c) IN a = b, P, "tf.print", o.txt \o " reads as another case") \o Must(Mixed(c) \/ o.txt2 = o.txt, P, "tf.print.unstable", o.txt \o " printed again is " \o o.txt2) ELSE <<>>)
        ELSE <<>>))
FileVerdict(e) ==
    LET sem == SemFile(e.f) IN
    IF AnyBad(sem) THEN Must(e.st = "err", P, "tf.accepted", "a file with a wrong case is not refused: " \o e.st \o " " \o e.msg)
    ELSE Must(e.st = "ok", P, "tf.refused", e.msg)
         \o IF e.st # "ok" THEN <<>> ELSE
            Must(e.head = <<e.f.ver, e.f.kind, e.f.incl[1]>>, P, "tf.header", S(e.head))
         \o Must(Len(e.cases) = Len(sem), P, "tf.count", S(Len(e.cases)) \o " cases, expected " \o S(Len(sem)))
         \o IF Len(e.cases) = Len(sem) THEN Flat([j \in DOMAIN sem |-> ObsIs(e.cases[j], sem[j])]) ELSE <<>>
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<P, "tf.hang", "no answer or fatal crash">>>> ELSE
    IF e.op = "flaw" THEN Must(e.st = "err", P, "tf.flaw", e.tag \o ": accepted, or " \o e.st \o " " \o e.msg) ELSE FileVerdict(e)
=============================================================================
