--------------------------- MODULE LiteralsJudge ---------------------------
EXTENDS Literals, Judge
P == "P08"
Seen(e, x, k) ==
    LET t == TypeOfLit(x) IN
       Must(e.typ = t, P, k \o ".type", "type " \o ToString(e.typ))
    \o Must(NormLit(e.out) = NormLit(x), P, k \o ".message", "written as " \o ToString(e.out))
    \o Must(EmptyAgrees(e.out), P, k \o ".empty", "written as " \o ToString(e.out))
    \o Must(e.out2 = e.out /\ e.arg = e.out, P, k \o ".forms", "as expression or argument: " \o ToString(e.out2) \o ToString(e.arg))
    \o Must(e.eq = "truetrue", P, k \o ".notequal", "the literal read back is not equal: " \o e.eq)
    \o Must(e.typeq = "truetruetrue", P, k \o ".typenotequal", "the type read back is not equal: " \o e.typeq)
    \o Must(e.self = "truetrue", P, k \o ".self", "not equal to itself or not scalar")
    \o Must(e.str, P, k \o ".text", "the literal read back prints differently")
    \o Must(e.insame = e.l, P, k \o ".input", "the input was altered")
(* The value a constructor is asked for, as a literal. *)
Asked(e) == LET v == LVal(e.l) IN
    IF e.ctor = "lit" /\ v.k = "var_char" THEN [e.l EXCEPT !.c[1].c = Kids(v, "value") \o NZ("length", NChars(Attr(v, "value", "")), "0")]
    ELSE e.l
AsVerdict(e) ==
    LET a == TypeOfLit(e.l) k == "lit.as." \o a.k \o "." \o e.t.k fits == Becomes(e.l, e.t) IN
       Must(e.insame = "yes", P, k \o ".source", "the source literal was altered")
    \o Must(e.st # "panic", P, k \o ".panic", e.msg)
    \o (IF e.st = "none" \/ LVal(e.l).k = "null" THEN <<>> ELSE
          Must(e.st # "ok" \/ fits, P, k \o ".accepted", "now " \o ToString(e.typ))
       \o Must(~fits \/ e.st = "ok" \/ e.t.k \notin SureKs \/ a.k # e.t.k, P, k \o ".refused", e.msg)
       \o (IF e.st = "ok" /\ (fits \/ e.t.k \in {"fixed_char", "fixed_binary"}) THEN Must(e.typ = e.t /\ (fits => TypeOfLit(e.out) = e.t), P, k \o ".type", "type " \o ToString(e.typ) \o " written as " \o ToString(e.out))
                                      \o Must(SameVal(e.out, e.l), P, k \o ".value", "written as " \o ToString(e.out)) ELSE <<>>))
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<P, "lit.hang", "no answer or fatal crash">>>> ELSE
    LET k == "lit." \o e.op \o "." \o LVal(e.l).k \o (IF e.op = "new" THEN "." \o e.ctor ELSE "") IN
    CASE e.op = "as" -> AsVerdict(e)
      [] e.op = "mix" -> LET same == SameType(TypeOfLit(e.l), TypeOfLit(e.m)) w == IF same THEN "ok" ELSE "err" IN
              Must(e.list = w /\ e.keys = w /\ e.vals = w, P, k, "collection of equal types: " \o ToString(same) \o " list " \o e.list \o " keys " \o e.keys \o " values " \o e.vals)
           \o Must(e.none = "errerrerrerr", P, k \o ".none", "collection without elements or element types: " \o e.none)
      [] OTHER -> Must(e.st = "ok", P, k \o ".call", e.st \o " " \o e.msg)
           \o IF e.st # "ok" THEN <<>> ELSE Seen(e, IF e.op = "new" THEN Asked(e) ELSE e.l, k)
=============================================================================
