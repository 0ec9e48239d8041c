---------------------------- MODULE NumericJudge ----------------------------
EXTENDS Numeric, Judge
P == "P09"
LexNum(x) == Num(x.neg, x.int \o x.frac, x.exp - Len(x.frac))
DecNum(r) == Num(r.neg, r.dg, 0 - r.s)
(* a decimal literal denotes num with type (p, s), prints as num *)
DecIs(r, num, p, s, nul, var, k) ==
       Must(DecNum(r) = num /\ r.len = 16, P, k \o ".value", "stored as " \o ToString(r.dg) \o " scale " \o ToString(r.s))
    \o Must(r.p = p /\ r.s = s, P, k \o ".type", "stored as decimal(" \o ToString(r.p) \o "," \o ToString(r.s) \o ")")
    \o Must(r.typ = Nd("decimal", <<nul, var, ToString(r.p), ToString(r.s)>>, <<>>), P, k \o ".typ", "type " \o ToString(r.typ))
    \o Must(r.txt.ok /\ LexNum(r.txt) = num, P, k \o ".printed", "printed as " \o ToString(r.txt))
    \o Must(r.again = "ok" => Num(r.neg2, r.dg2, 0 - r.s2) = num, P, k \o ".reparsed", "printed text parses to " \o ToString(r.dg2))
DecVerdict(e) ==
    LET fits == TextFits(e.t) q == TextType(e.t) IN
    IF fits THEN Must(e.st = "ok", P, "dec.refused", e.text \o ": " \o e.msg)
                 \o IF e.st = "ok" THEN DecIs(e.r, TextNum(e.t), q[1], q[2], "1", "0", "dec") ELSE <<>>
    ELSE Must(e.st = "err", P, "dec.toolarge", e.text \o " accepted")
ApdVerdict(e) ==
    LET t == [sign |-> IF e.neg0 THEN "-" ELSE "", int |-> IF Strip(e.dg0) = <<>> THEN <<0>> ELSE e.dg0, frac |-> <<>>, exp |-> e.s0] q == TextType(t) IN
    Must(e.same, P, "apd.argument", "the argument was altered or the second call differs")
    \o IF TextFits(t) THEN Must(e.st = "ok", P, "apd.refused", e.msg) \o IF e.st = "ok" THEN DecIs(e.r, TextNum(t), q[1], q[2], "1", "0", "apd") ELSE <<>>
       ELSE Must(e.st = "err", P, "apd.toolarge", "accepted")
DecReVerdict(e) ==
    LET num == Num(e.neg0, e.dg0, 0 - e.s0) ok == ValidPS(e.p2, e.s2) /\ Holds(num, e.p2, e.s2) IN
    Must(e.st = "ok", P, "decre.call", e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE DecIs(e.r, num, e.p, e.s0, "1", "0", "decre.in")
    \o Must(e.insame, P, "decre.source", "the source literal was altered")
    \o IF ok THEN Must(e.st2 = "ok", P, "decre.refused", "a decimal that holds the number is refused") \o (IF e.st2 = "ok" THEN DecIs(e.q, num, e.p2, e.s2, "1", "3", "decre") ELSE <<>>)
       ELSE Must(e.st2 = "err", P, "decre.lossy", "accepted though decimal(" \o ToString(e.p2) \o "," \o ToString(e.s2) \o ") cannot hold it: " \o ToString(e.q.dg))
(* printed clock: same fields; the fraction may be cut after its first shown digits only where the format has fixed digits *)
FracIs(f, nn, exact) == IF exact THEN FracNanos(f) = nn /\ Len(f) <= 9 ELSE Len(f) <= 9 /\ FracNanos(f) = AtPrec([d |-> 0, s |-> 0, n |-> nn], Len(f)).n
ClockIs(c, i, withdate, exact, zoned) ==
    LET cd == DateOf(i.d) IN
    /\ c.ok
    /\ withdate => <<c.y, c.m, c.d>> = cd
    /\ c.h = i.s \div 3600 /\ c.mi = (i.s % 3600) \div 60 /\ c.s = i.s % 60
    /\ FracIs(c.f, i.n, exact)
    /\ c.zone \in (IF zoned THEN {"Z", "+00:00", ""} ELSE {""})
KindOf(c) == CASE c = "ts" -> "timestamp" [] c = "tstz" -> "timestamp_tz" [] c = "pts" -> "precision_timestamp" [] c = "ptstz" -> "precision_timestamp_tz"
               [] c = "date" -> "date" [] c = "time" -> "time" [] c = "ptime" -> "precision_time"
PrecOf(c, p) == IF c \in {"pts", "ptstz", "ptime"} THEN p ELSE IF c = "date" THEN 0 ELSE 6
TypeIs(c, p, nul, var) == IF c \in {"pts", "ptstz", "ptime"} THEN Nd(KindOf(c), <<nul, var, ToString(p)>>, <<>>) ELSE Nd(KindOf(c), <<nul, var>>, <<>>)
TimeIs(r, c, p, i, nul, var, k) ==
    LET q == AtPrec(i, PrecOf(c, p)) isdate == c = "date" IN
       Must(r.val = q, P, k \o ".value", "instant " \o ToString(r.val) \o " expected " \o ToString(q))
    \o Must(r.typ = TypeIs(c, p, nul, var) /\ r.prec = PrecOf(c, p), P, k \o ".type", "type " \o ToString(r.typ))
    \o Must(isdate => (r.txt.ok /\ <<r.txt.y, r.txt.m, r.txt.d>> = DateOf(i.d)), P, k \o ".printed", "printed as " \o ToString(r.txt))
    \o Must(isdate \/ ClockIs(r.txt, q, c \notin {"time", "ptime"}, c # "time", c \in {"tstz", "ptstz"}), P, k \o ".printed", "printed as " \o ToString(r.txt))
    \o Must(isdate \/ ClockIs(r.iso, q, c \notin {"time", "ptime"}, c # "ptstz", c \in {"tstz", "ptstz"}), P, k \o ".iso", "in ISO form " \o ToString(r.iso))
(* a precision out of range is a programming error: an error or a panic, never a value *)
BadPrec(e) == e.ctor \in {"pts", "ptstz", "ptime"} /\ e.p \notin 0..9
TextVerdict(e) ==
    LET k == "text." \o e.ctor IN
    IF ~e.good THEN Must(e.st = "err", P, k \o ".malformed", e.text \o " accepted") ELSE
    IF BadPrec(e) THEN Must(e.st # "ok", P, k \o ".precision", "accepted with precision " \o ToString(e.p)) ELSE
    LET tod == e.ctor \in {"time", "ptime"}
        valid == (IF tod /\ ~e.full THEN TRUE ELSE ValidDate(e.t.y, e.t.m, e.t.d)) /\ (e.ctor = "date" \/ ValidTime(e.t.h, e.t.mi, e.t.s))
        i == IF e.ctor = "date" THEN [d |-> DaysOf(e.t.y, e.t.m, e.t.d), s |-> 0, n |-> 0]
             ELSE IF tod THEN [d |-> 0, s |-> e.t.h * 3600 + e.t.mi * 60 + e.t.s, n |-> FracNanos(e.t.f)] ELSE TsInst(e.t) IN
    IF ~valid THEN Must(e.st = "err", P, k \o ".invalid", e.text \o " accepted")
    ELSE IF ~Expressible(i, PrecOf(e.ctor, e.p)) THEN Must(e.st = "err", P, k \o ".overflow", e.text \o " has no 64-bit value, read as " \o ToString(e.r.val))
    ELSE Must(e.st = "ok", P, k \o ".refused", e.text \o ": " \o e.msg) \o IF e.st = "ok" THEN TimeIs(e.r, e.ctor, e.p, i, "2", "0", k) ELSE <<>>
WallVerdict(e) ==
    LET k == "wall." \o e.ctor i == IF e.ctor = "ptime" THEN [e.i EXCEPT !.d = 0] ELSE e.i IN
    IF BadPrec(e) THEN Must(e.st # "ok", P, k \o ".precision", "accepted with precision " \o ToString(e.p))
    ELSE IF ~Expressible(i, PrecOf(e.ctor, e.p)) THEN Must(e.st = "err", P, k \o ".overflow", "no 64-bit value, got " \o ToString(e.r.val))
    ELSE Must(e.st = "ok", P, k \o ".refused", e.msg) \o IF e.st = "ok" THEN TimeIs(e.r, e.ctor, e.p, i, "1", "0", k) ELSE <<>>
ConvVerdict(e) ==
    LET k == "conv." \o e.ctor IN
    Must(e.st = "ok", P, k \o ".call", e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE TimeIs(e.r, e.ctor, e.p, e.i, "1", "0", k \o ".in")
    \o Must(e.wall = e.i /\ e.wall2 = e.i, P, k \o ".wall", "wall clock " \o ToString(e.wall) \o ToString(e.wall2))
    \o IF Expressible(e.i, e.p2) THEN Must(e.st2 = "ok", P, k \o ".refused", "refused") \o (IF e.st2 = "ok" THEN TimeIs(e.q, e.ctor, e.p2, e.i, "1", "2", k) ELSE <<>>)
       ELSE Must(e.st2 = "err", P, k \o ".overflow", "no 64-bit value, got " \o ToString(e.q.val))
PlainVerdict(e) ==
    LET i == IF e.ctor = "date" THEN [d |-> e.i.d, s |-> 0, n |-> 0] ELSE IF e.ctor = "time" THEN [e.i EXCEPT !.d = 0] ELSE e.i IN
    Must(e.st = "ok", P, "plain." \o e.ctor \o ".call", e.msg) \o IF e.st = "ok" THEN TimeIs(e.r, e.ctor, 6, i, "1", "0", "plain." \o e.ctor) ELSE <<>>
HmsVerdict(e) ==
    LET s == e.nn[1] * 3600 + e.nn[2] * 60 + e.nn[3] + (e.nn[4] \div 1000000) IN
    IF s >= 0 /\ s < 86400 THEN Must(e.st = "ok", P, "hms.refused", e.msg) \o IF e.st = "ok" THEN TimeIs(e.r, "time", 6, [d |-> 0, s |-> s, n |-> (e.nn[4] % 1000000) * 1000], "1", "0", "hms") ELSE <<>>
    ELSE Must(e.st = "err", P, "hms.range", "accepted as " \o ToString(e.r.val))
(* an interval of d days, s seconds, u units of 10^-p seconds *)
IvIsoIs(x, d, s, nn) == x.ok /\ x.y = 0 /\ x.m = 0 /\ x.d = d /\ x.h * 3600 + x.mi * 60 + x.s = s /\ Len(x.f) <= 9 /\ (IF x.sneg THEN 0 - FracNanos(x.f) ELSE FracNanos(x.f)) = nn
IvIs(r, d, s, us, p, nul, var, k) ==
       Must(r.d = d /\ r.s = s /\ r.u \in us /\ r.p = p, P, k \o ".value", "interval " \o ToString(<<r.d, r.s, r.u, r.p>>))
    \o Must(r.typ = Nd("interval_day", <<nul, var, ToString(p)>>, <<>>), P, k \o ".type", "type " \o ToString(r.typ))
    \o Must(r.u \in us => IvIsoIs(r.iso, d, s, r.u * P10(9 - p)), P, k \o ".iso", "in ISO form " \o ToString(r.iso))
IvVerdict(e) ==
    LET v == e.v p == IF v.hass THEN IvPrec(v.f) ELSE 6 nn == IF v.hass THEN FracNanos(v.f) ELSE 0
        s == (IF v.hash THEN v.h * 3600 ELSE 0) + (IF v.hasm THEN v.mi * 60 ELSE 0) + (IF v.hass THEN v.s ELSE 0) IN
    Must(e.st = "ok", P, "iv.refused", e.text \o ": " \o e.msg)
    \o IF e.st = "ok" THEN IvIs(e.r, IF v.hasd THEN v.d ELSE 0, s, {nn \div P10(9 - p)}, p, "1", "0", "iv") ELSE <<>>
FDiv(a, b) == IF a >= 0 THEN {a \div b} ELSE {a \div b, 0 - ((0 - a) \div b)}
IvReVerdict(e) ==
    LET p == IF e.iv.micro THEN 6 ELSE e.p to == IF e.p2 >= p THEN {e.iv.u * P10(e.p2 - p)} ELSE FDiv(e.iv.u, P10(p - e.p2)) IN
    Must(e.st = "ok" /\ e.st2 = "ok", P, "ivre.call", e.msg \o " " \o e.st2)
    \o IF e.st # "ok" \/ e.st2 # "ok" THEN <<>> ELSE
       Must(IvIsoIs(e.r.iso, e.iv.d, e.iv.s, e.iv.u * P10(9 - p)), P, "ivre.in.iso", "in ISO form " \o ToString(e.r.iso))
    \o IvIs(e.q, e.iv.d, e.iv.s, to, e.p2, "1", "2", "ivre")
YmVerdict(e) == Must(e.st = "ok", P, "ym.refused", e.text \o ": " \o e.msg) \o IF e.st # "ok" THEN <<>> ELSE
       Must(e.r.y = e.y /\ e.r.m = e.mo, P, "ym.value", e.text \o " read as " \o ToString(<<e.r.y, e.r.m>>))
    \o Must(e.r.iso.ok /\ e.r.iso.y = e.y /\ e.r.iso.m = e.mo, P, "ym.iso", "in ISO form " \o ToString(e.r.iso))
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<P, "num.hang", "no answer or fatal crash">>>> ELSE
    CASE e.op = "dec" -> DecVerdict(e)
      [] e.op = "decbad" -> Must(e.st = "err", P, "dec.malformed", "accepted: " \o e.text)
      [] e.op = "apd" -> ApdVerdict(e)
      [] e.op = "apdform" -> Must(e.st = "err", P, "apd.form", e.text \o " accepted")
      [] e.op = "decre" -> DecReVerdict(e)
      [] e.op = "text" -> TextVerdict(e)
      [] e.op = "wall" -> WallVerdict(e)
      [] e.op = "conv" -> ConvVerdict(e)
      [] e.op = "plain" -> PlainVerdict(e)
      [] e.op = "hms" -> HmsVerdict(e)
      [] e.op = "iv" -> IvVerdict(e)
      [] e.op = "ivre" -> IvReVerdict(e)
      [] e.op \in {"ivbad", "ymbad"} -> Must(e.st = "err", P, e.op, "accepted: " \o e.text)
      [] e.op = "ym" -> YmVerdict(e)
=============================================================================
