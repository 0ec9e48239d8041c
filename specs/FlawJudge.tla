------------------------------ MODULE FlawJudge ------------------------------
EXTENDS Flaw, Judge
Stages == <<"write", "again", "copy", "rewrite", "visit", "equals">>
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P23", "flaw.hang." \o e.op, "no answer or fatal crash">>>> ELSE
    LET f == Flaws(e.t, e.kind, FALSE) k == "flaw." IN
    IF OpenTree(e.t) THEN <<>> ELSE
       Must(e.st # "panic", "P23", k \o "panic." \o e.tag, e.msg \o " reading " \o ToString(e.t))
    \o Must(f = <<>> \/ e.st # "ok", "P23", k \o "accepted." \o (IF f = <<>> THEN "" ELSE f[1]), "accepted: " \o ToString(e.t))
    \o Must(e.how # "none" \/ e.st = "ok", "P23", k \o "refused." \o e.op, e.st \o " " \o e.msg)
    \o IF e.st # "ok" \/ f # <<>> THEN <<>> ELSE
       Flat([j \in DOMAIN e.stages |-> LET s == e.stages[j] IN
            Must(s.st # "panic" \/ (s.n \in {"type", "print", "schema"} /\ LooseRef(e.t)), "P23", k \o "stage." \o s.n, s.msg \o " after reading " \o ToString(e.t))
         \o Must(s.st # "err" \/ s.n # "again", "P23", k \o "again", s.msg \o " after reading " \o ToString(e.t))])
=============================================================================
