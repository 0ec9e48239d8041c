------------------------------- MODULE Numeric -------------------------------
(* Numbers and instants. TLC's integers are 32 bits wide, so a decimal is its digits and an instant is
   [d |-> days since 1970-01-01, s |-> second of the day, n |-> nanosecond]. *)
EXTENDS Lib

(* ---------------- decimals: a number is [neg, dg (digits, most significant first), x (power of ten)] ---------------- *)
Zeros(k) == [j \in 1..k |-> 0]
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d                 \* leading zeros
RECURSIVE Trim(_, _)
Trim(d, x) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1), x + 1) ELSE <<d, x>>
Num(neg, dg, x) == LET t == Trim(Strip(dg), x) IN IF t[1] = <<>> THEN [neg |-> FALSE, dg |-> <<>>, x |-> 0] ELSE [neg |-> neg, dg |-> t[1], x |-> t[2]]
(* A decimal text: sign, digits before and after the point, exponent ("" when absent). *)
TextNum(t) == Num(t.sign = "-", t.int \o t.frac, t.exp - Len(t.frac))
NDig(d) == Max2(1, Len(Strip(d)))
(* Scale as written (none if the exponent leaves no fraction); precision: the digits, and one before the point. *)
TextScale(t) == Max2(0, Len(t.frac) - t.exp)
TextPrec(t) == LET x == t.exp - Len(t.frac) c == Strip(t.int \o t.frac) IN
    IF x >= 0 THEN IF c = <<>> THEN 1 ELSE Len(c) + x ELSE Max2(NDig(c), 1 - x)
(* One digit before the point is provided for where there is room for it. *)
TextType(t) == LET p == TextPrec(t) s == TextScale(t) IN
    IF p = 39 /\ s = 38 /\ NDig(t.int \o t.frac) <= 38 THEN <<38, 38>> ELSE <<p, s>>
TextFits(t) == LET q == TextType(t) IN q[1] <= 38 /\ q[2] <= 38
HasDigits(t) == t.int # <<>> \/ t.frac # <<>>
DigS(d) == JoinStr([j \in DOMAIN d |-> ToString(d[j])], "")
Render(t) == t.sign \o DigS(t.int) \o (IF t.dot THEN "." ELSE "") \o DigS(t.frac) \o
             (IF t.e = "" THEN "" ELSE t.e \o (IF t.exp < 0 THEN "-" ELSE t.eplus) \o ToString(IF t.exp < 0 THEN 0 - t.exp ELSE t.exp))
(* The number c / 10^s fits decimal(p, s2) *)
Holds(num, p, s2) == /\ num.dg = <<>> \/ (num.x + s2 >= 0 /\ Len(num.dg) + num.x + s2 <= p)
ValidPS(p, s) == p >= 1 /\ p <= 38 /\ s >= 0 /\ s <= p
(* Coefficient digits of num at scale s (which must hold it). *)
Coef(num, s) == IF num.dg = <<>> THEN <<>> ELSE num.dg \o Zeros(num.x + s)

(* ---------------- the calendar ---------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
(* Days since 1970-01-01 in the proleptic Gregorian calendar. *)
DaysOf(y, m, d) ==
    LET y2 == IF m <= 2 THEN y - 1 ELSE y  era == y2 \div 400  yoe == y2 % 400
        doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
DateOf(z0) ==
    LET z == z0 + 719468 era == z \div 146097 doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<(yoe + era * 400) + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
NextDate(c) == IF c[3] < MonthDays(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>> ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>

(* ---------------- instants ---------------- *)
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
Inst(d, s, n) == IF s < 0 THEN [d |-> d - 1, s |-> s + 86400, n |-> n] ELSE IF s >= 86400 THEN [d |-> d + 1, s |-> s - 86400, n |-> n] ELSE [d |-> d, s |-> s, n |-> n]
FracNanos(f) == LET g == SubSeq(f, 1, Min2(9, Len(f))) \o Zeros(Max2(0, 9 - Len(f))) IN FoldLeft(LAMBDA a, x : a * 10 + x, 0, g)
(* The instant rounded towards the past to precision p, as the units after the second. *)
Units(n, p) == n \div P10(9 - p)
AtPrec(i, p) == [d |-> i.d, s |-> i.s, n |-> Units(i.n, p) * P10(9 - p)]
Before(a, b) == a.d < b.d \/ (a.d = b.d /\ (a.s < b.s \/ (a.s = b.s /\ a.n < b.n)))
(* Instants whose value is a 64-bit integer. *)
I64Min(p) == IF p = 9 THEN [d |-> 0 - 106752, s |-> 763, n |-> 145224192] ELSE [d |-> 0 - 1067520, s |-> 7631, n |-> 452241920]
I64Max(p) == IF p = 9 THEN [d |-> 106751, s |-> 85636, n |-> 854775807] ELSE [d |-> 1067519, s |-> 78768, n |-> 547758070]
Expressible(i, p) == p < 8 \/ LET q == AtPrec(i, p) IN ~Before(q, I64Min(p)) /\ ~Before(I64Max(p), q)
(* A text for a date and time: fields, fraction digits, offset in minutes ("" none, "Z", "+hh:mm"). *)
Pad(n, w) == LET s == ToString(n) IN DigS(Zeros(Max2(0, w - Len(s)))) \o s
DateText(t) == Pad(t.y, 4) \o "-" \o Pad(t.m, 2) \o "-" \o Pad(t.d, 2)
TimeText(t) == Pad(t.h, 2) \o ":" \o Pad(t.mi, 2) \o ":" \o Pad(t.s, 2) \o (IF t.f = <<>> THEN "" ELSE "." \o DigS(t.f))
OffText(t) == CASE t.zone = "none" -> "" [] t.zone = "Z" -> "Z"
    [] OTHER -> (IF t.off < 0 THEN "-" ELSE "+") \o LET a == IF t.off < 0 THEN 0 - t.off ELSE t.off IN Pad(a \div 60, 2) \o ":" \o Pad(a % 60, 2)
TsText(t) == DateText(t) \o "T" \o TimeText(t) \o OffText(t)
TsValid(t) == ValidDate(t.y, t.m, t.d) /\ ValidTime(t.h, t.mi, t.s)
TsInst(t) == Inst(DaysOf(t.y, t.m, t.d), t.h * 3600 + t.mi * 60 + t.s - t.off * 60, FracNanos(t.f))

(* ---------------- intervals ---------------- *)
IvSecs(v) == v.h * 3600 + v.mi * 60 + v.s
(* Microseconds unless the fraction needs nanoseconds. *)
RECURSIVE TrimR(_)
TrimR(f) == IF f # <<>> /\ f[Len(f)] = 0 THEN TrimR(SubSeq(f, 1, Len(f) - 1)) ELSE f
IvPrec(f) == IF Len(TrimR(SubSeq(f, 1, Min2(9, Len(f))))) <= 6 THEN 6 ELSE 9
IvText(v) == "P" \o (IF v.hasd THEN ToString(v.d) \o "D" ELSE "") \o
    (IF v.hash \/ v.hasm \/ v.hass THEN "T" ELSE "") \o (IF v.hash THEN ToString(v.h) \o "H" ELSE "") \o
    (IF v.hasm THEN ToString(v.mi) \o "M" ELSE "") \o
    (IF v.hass THEN ToString(v.s) \o (IF v.f = <<>> THEN "" ELSE "." \o DigS(v.f)) \o "S" ELSE "")

(* ---------------- grammar ---------------- *)
GDig(x) == RE(0..9)
GDigs(k) == TLCEval([j \in 1..k |-> RE(0..9)])
GDecText(x) ==
    LET ni == Pick(<<0, 1, 1, 2, 5, 9, 19, 20, 30, 37, 38, 39>>) nf == Pick(<<0, 0, 1, 2, 3, 8, 10, 19, 37, 38>>)
        int == TLCEval(IF Chance(1, 6) THEN Zeros(ni) ELSE GDigs(ni)) frac == TLCEval(IF Chance(1, 6) THEN Zeros(nf) ELSE GDigs(nf))
        e == TLCEval(Pick(<<"", "", "", "e", "E">>))
        exp == TLCEval(IF e = "" THEN 0 ELSE Pick(<<0, 1, 2, 5, 20, 30, 37, 38, -1, -2, -7, -20, -37, -40>>))
        sg == Pick(<<"", "", "-", "-", "+">>) pl == Pick(<<"", "+">>) dt == Chance(1, 4) IN
    [sign |-> sg, int |-> int, dot |-> (frac # <<>> \/ (dt /\ int # <<>>)), frac |-> frac, e |-> e, eplus |-> pl, exp |-> exp]
BadDecs == <<"", "-", "+", ".", "-.", "e5", "E-1", "1e", "1e+", "2.5E-", "1.2.3", "abc", "1_0", "0x10", "NaN", "Infinity", "inf", "--1", "1-", "1e5e5", "1,5", "1.5x", ".e1">>
(* the first and the last instant of each precision that has 64-bit limits within the calendar, and their neighbours *)
EdgesOf(p) == LET a == I64Min(p) b == I64Max(p) st == P10(9 - p) IN
    <<a, b, [a EXCEPT !.n = a.n - st], [b EXCEPT !.n = b.n + st], [a EXCEPT !.s = a.s - 1], [b EXCEPT !.s = b.s + 1], [a EXCEPT !.s = a.s + 1, !.n = 0], [b EXCEPT !.n = 0]>>
Edges == EdgesOf(8) \o EdgesOf(9)
OnEdge(i) == \E j \in DOMAIN Edges : Edges[j].d = i.d
EdgeTs == <<[y |-> 1677, m |-> 9, d |-> 21, h |-> 0, mi |-> 12, s |-> 43, f |-> <<1, 4, 5, 2, 2, 4, 1, 9, 2>>, zone |-> "Z", off |-> 0],
            [y |-> 2262, m |-> 4, d |-> 11, h |-> 23, mi |-> 47, s |-> 16, f |-> <<8, 5, 4, 7, 7, 5, 8, 0, 7>>, zone |-> "Z", off |-> 0]>>
GEdgeTs(x) == LET t == TLCEval(Pick(EdgeTs)) IN CASE RE(1..3) = 1 -> t [] RE(1..2) = 1 -> [t EXCEPT !.f = [j \in 1..9 |-> IF j = 9 THEN (IF t.y = 1677 THEN 1 ELSE 8) ELSE t.f[j]]]
    [] OTHER -> [t EXCEPT !.zone = "off", !.off = Pick(<<60, -60>>)]
GTs(x) ==
    LET y == Pick(<<1970, 1969, 1900, 2000, 2100, 1600, 1677, 1678, 2262, 2263, 4891, 4892, 5000, 9999, 1, RE(1800..2200)>>) m == RE(1..12)
        d == TLCEval(Pick(<<1, 28, 29, 30, 31, RE(1..31)>>)) h == Pick(<<0, 23, RE(0..23)>>) mi == Pick(<<0, 59, RE(0..59)>>) s == Pick(<<0, 59, RE(0..59)>>)
        f == TLCEval(GDigs(Pick(<<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9>>)))
        z == TLCEval(Pick(<<"none", "none", "Z", "off", "off">>)) o == TLCEval(IF z = "off" THEN Pick(<<0, 60, -60, 330, -765, 840, -1>>) ELSE 0) IN
    [y |-> y, m |-> m, d |-> d, h |-> h, mi |-> mi, s |-> s, f |-> f, zone |-> z, off |-> o]
(* usually a valid one *)
GTs2(x) == LET t == TLCEval(IF Chance(1, 12) THEN GEdgeTs(0) ELSE GTs(0)) IN IF Chance(9, 10) /\ ~TsValid(t) THEN [t EXCEPT !.d = 28] ELSE
    IF Chance(1, 20) THEN CASE RE(1..4) = 1 -> [t EXCEPT !.m = 13] [] RE(1..3) = 1 -> [t EXCEPT !.h = 24] [] RE(1..2) = 1 -> [t EXCEPT !.mi = 60] [] OTHER -> [t EXCEPT !.s = 61] ELSE t
GInst(x) == LET w == RE(1..6) s == Pick(<<0, 86399, RE(0..86399)>>) n == Pick(<<0, 1, 999999999, 500000000, 999, 123456789, RE(0..999999999)>>)
                d == CASE w <= 2 -> RE(-40000..40000) [] w = 3 -> Pick(<<0, -1, 1>>) [] w = 4 -> Pick(<<-106752, 106751, -106751, 106752>>)
                       [] w = 5 -> Pick(<<-719162, 2932896, 1067519, -1067520>>) [] OTHER -> RE(-700000..2900000) IN
    IF Chance(1, 10) THEN Pick(Edges) ELSE [d |-> d, s |-> s, n |-> n]
=============================================================================
