---------------------------- MODULE TypeTextJudge ----------------------------
EXTENDS TypeExpr, Judge
GoodVerdict(e) ==
    LET k == "text." \o e.t.k IN
       Must(e.st = "ok", "P03", k \o ".refused", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(e.ast = e.t, "P03", k \o ".meaning", "parsed as " \o ToString(e.ast))
    \o Must(e.st2 = "ok", "P03", k \o ".reparse", "printed text is refused: " \o ToString(e.str) \o " " \o e.msg2)
    \o IF e.st2 # "ok" THEN <<>> ELSE
       Must(e.ast2 = e.t, "P03", k \o ".printed", "printed as " \o ToString(e.str))
    \o Must(e.str2 = e.str, "P03", k \o ".unstable", "prints as " \o ToString(e.str) \o " then " \o ToString(e.str2))
    \o Must(e.yml = "true", "P03", k \o ".yaml", "YAML form differs")
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P03", "text.hang", "no answer or fatal crash">>>> ELSE
    CASE e.op = "good" -> GoodVerdict(e)
      [] e.op = "bad" -> Must(e.st = "err", "P03", "text.accepted", e.st \o " " \o ToString(e.text) \o " as " \o ToString(e.ast))
=============================================================================
