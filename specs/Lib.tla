-------------------------------- MODULE Lib --------------------------------
(* Shared vocabulary. Every structured value of the system (types, literals, expressions, relations, plans) is a
   node [k |-> name, p |-> attribute strings, c |-> child nodes]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Nd(k, p, c) == [k |-> k, p |-> p, c |-> c]
NilNode == Nd("nil", <<>>, <<>>)
IsNil(n) == n.k = "nil"
Kids(n, k) == SelectSeq(n.c, LAMBDA x : x.k = k)
Has(n, k) == \E i \in DOMAIN n.c : n.c[i].k = k
Kid(n, k) == LET i == CHOOSE i \in DOMAIN n.c : n.c[i].k = k IN n.c[i]
Attr(n, k, d) == IF Has(n, k) THEN Kid(n, k).p[1] ELSE d
Sc(k, v) == Nd(k, <<v>>, <<>>)                  \* scalar field
Msg(k, c) == Nd(k, <<>>, c)                     \* message field
OptF(b, x) == IF b THEN <<x>> ELSE <<>>         \* optional field
NZ(k, v, zero) == IF v = zero THEN <<>> ELSE <<Sc(k, v)>>   \* scalar without presence: absent when default
Rename(n, k) == [n EXCEPT !.k = k]
Without(n, k) == [n EXCEPT !.c = SelectSeq(n.c, LAMBDA x : x.k # k)]
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
JoinStr(s, sep) == FoldLeft(LAMBDA a, j : IF j = 1 THEN s[1] ELSE a \o sep \o s[j], "", [j \in DOMAIN s |-> j])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, n.c)

(* --- generation (used in -simulate mode with a seed; zero-arity random definitions would be constants) --- *)
RE(S) == RandomElement(S)
Pick(s) == s[RE(1..Len(s))]
Chance(a, b) == RE(1..b) <= a
Cyc(n, s) == s[((n - 1) % Len(s)) + 1]
Emit(x) == Serialize(ToJson(x) \o "\n", IOEnv.OUT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
NScn == atoi(IOEnv.N)
Base == atoi(IOEnv.BASE)
Prop == IOEnv.PROP
Thorough == IOEnv.TIER = "thorough"

(* --- verdicts: a sequence of <<property, key, why>>, empty when the event is allowed --- *)
Must(ok, prop, key, why) == IF ok THEN <<>> ELSE <<<<prop, key, why>>>>
=============================================================================
