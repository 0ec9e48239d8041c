----------------------------- MODULE DialectJudge -----------------------------
(* Every observed run (a dialect is loaded and localised several times) must be the one the machine has. *)
EXTENDS Dialect, Judge
P == "P21"
FnKey(f, kind) == <<kind, f.urn, f.compound, f.name, f.local, f.notation>>
Want(d, kind) == LET s == Infos(d, kind) IN {FnKey(s[j], kind) : j \in DOMAIN s}
ByCount(c, d, l) == LET ents == TLCEval(OfKind(c, l.kind)) s == Infos(d, l.kind) IN
    IF l.by = "plain" THEN {<<ents[j].urn, ents[j].compound, "">> : j \in {j \in DOMAIN ents : ents[j].name = l.name /\ CountOk(ents[j], l.count)}}
    ELSE {<<s[j].urn, s[j].compound, s[j].local>> : j \in {j \in DOMAIN s : (IF l.by = "local" THEN s[j].local ELSE s[j].name) = l.name
            /\ \E x \in DOMAIN ents : ents[x].urn = s[j].urn /\ ents[x].compound = s[j].compound /\ CountOk(ents[x], l.count)}}
OneType(d, t, o) == \* o = [st, text, col, back]
    LET ok == TypeOk(d, t) IN
    Must(o.col = IF InTables(d, t) THEN "true" ELSE "false", P, "dialect.type.column", "column support of " \o ToString(t) \o ": " \o o.col)
    \o (IF ~ok THEN Must(o.st = "err", P, "dialect.type.undeclared", ToString(t) \o " is not declared, got " \o o.st \o " " \o o.text)
        ELSE IF o.st # "ok" \/ o.text # LocalText(d, t) THEN <<<<P, "dialect.type.local", ToString(t) \o " gives " \o o.st \o " " \o o.text \o ", expected " \o LocalText(d, t)>>>>
        ELSE LET e == d.types[CHOOSE j \in TypeDecl(d, t.k) : TRUE] IN
             Must(o.back \in LocalReadings(d, e.sql, DTypeP(t)), P, "dialect.type.back", o.text \o " reads back as " \o ToString(o.back)))
Reading(what, text, want, o) ==
    IF want = {} THEN Must(o.st = "err", P, "dialect." \o what \o ".bad", text \o " is not a type of the dialect, got " \o o.st \o " " \o ToString(o.type))
    ELSE Must(o.st = "ok" /\ o.type \in want, P, "dialect." \o what, text \o " reads as " \o o.st \o " " \o ToString(o.type) \o ", expected " \o ToString(want))
Full(c, what) == {<<what, j>> : j \in DOMAIN c}
RunV(e, r) ==
    LET c == e.coll d == e.d
        all == TLCEval([j \in DOMAIN All(c) |-> <<All(c)[j].kind, All(c)[j].urn, All(c)[j].compound>>]) IN
    IF r.panic # "" THEN <<<<P, "dialect.panic", r.panic>>>>
    ELSE Must(Len(r.all) = Len(all) /\ ToSet(r.all) = ToSet(all), P, "dialect.registry", "registry lists " \o ToString(r.all))
    \o Must((r.load = "ok") = (d.bad = ""), P, "dialect.load", "dialect (" \o d.bad \o ") loads: " \o r.load \o " " \o r.msg)
    \o (IF d.bad # "" \/ r.load # "ok" THEN <<>> ELSE
        Must((r.types = "ok") = (BadTypes(d) = {}), P, "dialect.types", "types: " \o r.types \o " " \o r.msg)
        \o (IF r.types # "ok" THEN <<>> ELSE
            Flat([j \in DOMAIN e.types |-> OneType(d, e.types[j], r.typ[j])])
            \o Flat([j \in DOMAIN e.texts |-> Reading("text", e.texts[j].text, SubstraitReading(d, e.texts[j].name, e.texts[j].nul, e.texts[j].ps), r.texts[j])])
            \o Flat([j \in DOMAIN e.locals |-> Reading("localtext", e.locals[j].text, LocalReadings(d, e.locals[j].base, e.locals[j].ps), r.locals[j])])
            \o Must({r.sup[j][1] : j \in DOMAIN r.sup} = {d.types[j].sql : j \in DOMAIN d.types} /\ \A j \in DOMAIN r.sup : \E x \in DOMAIN d.types : d.types[x].sql = r.sup[j][1] /\ d.types[x].kind = r.sup[j][2],
                    P, "dialect.supported", "supported types " \o ToString(r.sup)))
        \o Must((r.local = "ok") = CanLocalise(d, c), P, "dialect.localise", "localising: " \o r.local \o " " \o r.msg \o "; missing " \o ToString([j \in DOMAIN Kinds |-> Missing(d, c, Kinds[j])]))
        \o (IF r.local # "ok" \/ ~CanLocalise(d, c) THEN <<>> ELSE
            LET want == UNION {Want(d, Kinds[j]) : j \in DOMAIN Kinds} got == {r.fns[j].key : j \in DOMAIN r.fns} IN
            Must(got = want /\ Len(r.fns) = Cardinality(want), P, "dialect.functions", "lists " \o ToString(got) \o " declared " \o ToString(want))
            \o Flat([j \in DOMAIN r.fns |-> LET f == r.fns[j] s == Infos(d, f.key[1]) IN
                 Flat([x \in DOMAIN s |-> IF s[x].urn # f.key[2] \/ s[x].compound # f.key[3] THEN <<>> ELSE
                    Must(\A y \in DOMAIN f.opts : (f.opts[y][3] = "yes") = OptDeclared(s[x].opts, f.opts[y][1], f.opts[y][2]), P, "dialect.option", "options of " \o ToString(f.key) \o ": " \o ToString(f.opts))])])
            \o Flat([j \in DOMAIN e.looks |-> LET w == TLCEval(ByCount(c, d, e.looks[j])) IN
                 Must(ToSet(r.looks[j]) = w /\ Len(r.looks[j]) = Cardinality(w), P, "dialect.lookup." \o e.looks[j].by, ToString(e.looks[j]) \o " finds " \o ToString(r.looks[j]) \o " expected " \o ToString(w))])
            \o Flat([j \in DOMAIN e.calls |-> LET k == e.calls[j] o == r.calls[j] ok == CallOk(d, k) IN
                 IF ~ok THEN Must(o.st = "err", P, "dialect.call.refused", ToString(k) \o " should be refused, got " \o o.st \o " " \o o.msg)
                 ELSE LET s == Infos(d, k.kind) f == s[CHOOSE x \in DOMAIN s : s[x].urn = k.urn /\ s[x].compound = k.compound] IN
                      Must(o.st = "ok" /\ o.key = FnKey(f, k.kind), P, "dialect.call", ToString(k) \o " gives " \o o.st \o " " \o o.msg \o " " \o ToString(o.key))])))
TheVerdict(e) == IF e.hang = "yes" THEN <<<<P, "dialect.hang", "no answer or fatal crash">>>>
    ELSE Flat([j \in DOMAIN e.runs |-> RunV(e, e.runs[j])])
         \o Must(Len(e.runs) = 1, P, "dialect.nondeterministic", "the same dialect answers in " \o ToString(Len(e.runs)) \o " ways")
=============================================================================
