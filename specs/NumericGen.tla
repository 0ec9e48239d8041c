----------------------------- MODULE NumericGen -----------------------------
EXTENDS Numeric
VARIABLES n, sc
GPt(x) == RE(0..9)
GIv(x) == LET w == RE(1..10)
              d == Pick(<<0, 1, 1000, 2147483647, RE(0..9999)>>) h == Pick(<<0, 1, 23, 10000>>) mi == Pick(<<0, 1, 59, 100000>>) s == Pick(<<0, 1, 59, 86400>>)
              f == TLCEval(GDigs(Pick(<<0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12>>))) b == TLCEval([j \in 1..4 |-> Chance(1, 2)]) IN
    IF w = 1 THEN [hasd |-> FALSE, d |-> 0, hash |-> TRUE, h |-> 596523, hasm |-> TRUE, mi |-> 14, hass |-> TRUE, s |-> 7, f |-> <<>>]
    ELSE [hasd |-> b[1], d |-> d, hash |-> b[2], h |-> h, hasm |-> b[3], mi |-> mi, hass |-> b[4] \/ ~(b[1] \/ b[2] \/ b[3]), s |-> s, f |-> f]
BadIvs == <<"", "PTS", "P1DT", "PT1HS", "P", "PT", "1D", "P1", "P1DT2", "P5M", "P1D2H", "PT1H2.5M", "P-1D", "P1.5D", "PT2S1M", "P1DT1S1H", "P2147483648D", "PT2147483648S", "PT600000H",
            "PT35791395M", "PT596523H14M8S", "PT4294967296S", "P1D ", " P1D", "P1DX", "PT1.2.3S", "p1d">>
BadYms == <<"", "P", "PY", "PM", "P1", "1Y", "P1Y2", "P1YM", "P1M2Y", "P1Y2MX", "PXY", "P1.5Y", "P1Y 2M", "P2147483648Y", "P4294967297M", "P1Y2M3M", "P1Y1Y", "P1D", "P1Y2M3", "PY1M", "XP1Y">>
BadTs == <<"", "2020-01-01", "2020-13-01T00:00:00", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00", "2020-01-01T24:00:00", "2020-01-01T00:60:00", "2020-01-01T00:00:60",
           "2020-01-01T00:00", "x", "2020-1-1T00:00:00", "2020-01-01T00:00:00+0100x", "2020-01-01T00:00:00.", "25:00:00", "12:60:00">>
BadDates == <<"", "2020-13-01", "2020-02-30", "1900-02-29", "2020-1-1", "20200101", "2020-01-01T00:00:00", "x", "2020-00-10", "2020-01-00">>
TsLike == <<"ts", "tstz", "pts", "pts", "ptstz", "ptstz">>
GPInst(p) == LET i == TLCEval(GInst(0)) IN IF Expressible(i, p) THEN AtPrec(i, p) ELSE AtPrec([d |-> i.d % 10000, s |-> i.s, n |-> i.n], p)
GScn(m) ==
    LET w == m % 20 IN
    CASE w < 4 -> LET t == TLCEval(GDecText(0)) IN
            IF HasDigits(t) THEN [id |-> m, op |-> "dec", tag |-> t.sign \o t.e, t |-> t, text |-> Render(t)]
            ELSE [id |-> m, op |-> "decbad", tag |-> "", text |-> Render(t)]
      [] w = 4 -> IF Chance(1, 10) THEN [id |-> m, op |-> "apdform", tag |-> "", text |-> Pick(<<"NaN", "sNaN", "Infinity", "-Infinity">>)] ELSE IF Chance(1, 2) THEN [id |-> m, op |-> "decbad", tag |-> "", text |-> Pick(BadDecs)]
            ELSE LET dg == TLCEval(GDigs(Pick(<<1, 2, 5, 18, 30, 38, 39>>))) x == TLCEval(RE(-40..40)) ng == Chance(1, 2) IN
                 [id |-> m, op |-> "apd", tag |-> "", dg0 |-> dg, s0 |-> x, neg0 |-> ng]
      [] w \in 5..8 ->
            LET p == TLCEval(Pick(<<1, 2, 3, 5, 18, 19, 37, 38>>)) s == TLCEval(Pick(<<0, Min2(1, p), Min2(2, p), p \div 2, p - 1, p>>))
                k == RE(0..p) z == TLCEval(RE(0..k)) dg == TLCEval(GDigs(k - z) \o Zeros(z))
                p2 == TLCEval(Pick(<<p, Min2(38, p + 1), Min2(38, p + 3), Max2(1, p - 1), Max2(1, p - 2), RE(1..38), 38, 39, 0>>))
                s2 == TLCEval(Pick(<<s, s, Max2(0, s - 1), s + 1, s + 2, Max2(0, s - 3), RE(0..38), p2, 0 - 1>>)) ng == Chance(1, 2) IN
            [id |-> m, op |-> "decre", tag |-> "", dg0 |-> dg, neg0 |-> ng, p |-> p, s0 |-> s, p2 |-> p2, s2 |-> s2]
      [] w \in 9..11 -> LET t == TLCEval(GTs2(0)) c == TLCEval(Pick(TsLike \o <<"date", "time", "ptime">>)) p == IF Chance(1, 12) THEN Pick(<<10, 12, -1, 2147483647>>) ELSE IF t.y \in {1677, 2262} THEN Pick(<<8, 9, 9, 9>>) ELSE GPt(0)
                            t2 == TLCEval(IF c \in {"date", "time", "ptime"} THEN [t EXCEPT !.zone = "none", !.off = 0] ELSE t) full == TLCEval(Chance(1, 3)) IN
            [id |-> m, op |-> "text", tag |-> c, ctor |-> c, p |-> p, t |-> t2, full |-> full, good |-> TRUE,
             text |-> CASE c = "date" -> DateText(t2) [] c \in {"time", "ptime"} -> (IF full THEN TsText(t2) ELSE TimeText(t2)) [] OTHER -> TsText(t2)]
      [] w = 12 -> LET c == TLCEval(Pick(TsLike \o <<"date">>)) p == GPt(0) IN
            [id |-> m, op |-> "text", tag |-> "bad." \o c, ctor |-> c, p |-> p, good |-> FALSE, text |-> IF c = "date" THEN Pick(BadDates) ELSE Pick(BadTs)]
      [] w = 13 -> LET c == Pick(TsLike \o <<"ptime">>) i == TLCEval(GInst(0)) p == IF Chance(1, 6) THEN Pick(<<10, 12, -1, 2147483647>>) ELSE IF OnEdge(i) THEN Pick(<<8, 9, 9>>) ELSE GPt(0) o == Pick(<<0, 60, -330, 840>>) IN
            [id |-> m, op |-> "wall", tag |-> c, ctor |-> c, p |-> p, i |-> i, off |-> o]
      [] w \in 14..15 -> LET c == TLCEval(Pick(<<"pts", "ptstz", "ptime">>)) p == TLCEval(GPt(0)) i0 == TLCEval(GPInst(p)) p2 == TLCEval(IF OnEdge(i0) THEN Pick(<<8, 9, 9>>) ELSE GPt(0)) i == TLCEval(IF c = "ptime" THEN [i0 EXCEPT !.d = 0] ELSE i0) IN
            [id |-> m, op |-> "conv", tag |-> c, ctor |-> c, p |-> p, p2 |-> p2, i |-> i]
      [] w = 16 -> IF Chance(3, 4) THEN LET c == Pick(<<"ts", "tstz", "date", "time">>) i == TLCEval(AtPrec(GInst(0), 6)) IN
                    [id |-> m, op |-> "plain", tag |-> c, ctor |-> c, i |-> i]
            ELSE LET nn == TLCEval(<<Pick(<<0, 23, 24, -1, RE(0..23)>>), Pick(<<0, 59, 60, -1>>), Pick(<<0, 59, 60, -1>>), Pick(<<0, 999999, 1000000, -1, 2147483647>>)>>) IN
                    [id |-> m, op |-> "hms", tag |-> "", nn |-> nn]
      [] w = 17 -> IF Chance(2, 3) THEN LET v == TLCEval(GIv(0)) IN [id |-> m, op |-> "iv", tag |-> "", v |-> v, text |-> IvText(v)]
            ELSE [id |-> m, op |-> "ivbad", tag |-> "", text |-> Pick(BadIvs)]
      [] w = 18 -> LET p == TLCEval(GPt(0)) mc == TLCEval(p = 6 /\ Chance(1, 2)) p2 == GPt(0) sg == TLCEval(Pick(<<1, 1, -1>>))
                       u == TLCEval(sg * (IF p = 0 THEN 0 ELSE Pick(<<0, 1, P10(p) - 1, P10(p - 1), RE(0..P10(p) - 1)>>))) s == TLCEval(sg * Pick(<<0, 1, 59, 60, 3600, 86399, 2147483647>>)) dd == Pick(<<0, 1, -1, 2147483647, 5>>) IN
            [id |-> m, op |-> "ivre", tag |-> "", p |-> p, p2 |-> p2, iv |-> [d |-> dd, s |-> s, u |-> u, micro |-> mc]]
      [] OTHER -> LET y == TLCEval(Pick(<<0, 1, 10, 2147483647>>)) mo == TLCEval(Pick(<<0, 5, 11, 2147483647>>)) hy == TLCEval(Chance(2, 3)) hm == TLCEval(Chance(1, 2) \/ ~hy) IN
            IF Chance(1, 2) THEN [id |-> m, op |-> "ym", tag |-> "", y |-> IF hy THEN y ELSE 0, mo |-> IF hm THEN mo ELSE 0,
                text |-> "P" \o (IF hy THEN ToString(y) \o "Y" ELSE "") \o (IF hm THEN ToString(mo) \o "M" ELSE "")]
            ELSE [id |-> m, op |-> "ymbad", tag |-> "", text |-> Pick(BadYms)]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
(* Laws: rounding never moves an instant forward nor by a unit or more, and rounding in two steps is rounding once. *)
Law == /\ sc.op = "conv" => LET q == AtPrec(sc.i, sc.p2) IN ~Before(sc.i, q) /\ sc.i.n - q.n < P10(9 - sc.p2) /\ AtPrec(q, Min2(sc.p2, 3)) = AtPrec(sc.i, Min2(sc.p2, 3))
       /\ (sc.op = "text" /\ sc.good) => (TsValid(sc.t) => DateOf(DaysOf(sc.t.y, sc.t.m, sc.t.d)) = <<sc.t.y, sc.t.m, sc.t.d>>)
       /\ sc.op = "dec" => (TextFits(sc.t) => LET u == TextNum(sc.t) q == TextType(sc.t) IN Holds(u, q[1], q[2]) /\ ValidPS(q[1], q[2]))
=============================================================================
