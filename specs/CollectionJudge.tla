--------------------------- MODULE CollectionJudge ---------------------------
(* The observed collection after each load is compared with the machine's state. *)
EXTENDS Collection, Judge
Key(e) == <<e.urn, e.compound>>
SameSet(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
\* one differing entry of the expected against the observed
FirstDiff(want, got) == LET d == {j \in DOMAIN want : want[j] \notin ToSet(got)} IN IF d = {} THEN "extra or double entries: " \o ToString(got) ELSE
    LET w == want[CHOOSE j \in d : TRUE] IN "declared " \o ToString(w) \o " found " \o ToString({got[j] : j \in {j \in DOMAIN got : Key(got[j]) = Key(w)}})
SimpleV(ents, s) == \* s = <<kind, urn, name, found compound or "">>
    LET mine == {e \in ents : e.urn = s[2] /\ e.name = s[3]} named == {e \in mine : e.kind = s[1]} all == {e.compound : e \in mine} IN
    IF s[4] = "" THEN Must(~(Cardinality(named) = 1 /\ Cardinality(all) = 1), "P06", "coll.plain.missing", "plain name " \o ToString(s) \o " does not resolve")
    ELSE Must(Cardinality(named) = 1 /\ \A e \in named : e.compound = s[4], "P06", "coll.plain.ambiguous", "plain name " \o ToString(s) \o " resolves although it denotes " \o ToString({e.compound : e \in named}))
(* a file read without the library's defaults may leave what it does not say unstated *)
Filled(es) == [j \in DOMAIN es |-> LET e == es[j] IN [e EXCEPT !.null = Dflt(@, "MIRROR"), !.wt = IF e.kind = "window" THEN Dflt(@, "PARTITION") ELSE @,
     !.agg = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![3] = Dflt(@, "NONE")], !.var = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![3] = Dflt(@, "CONSISTENT")]]]
StepV(c0, f, o) ==
    LET c == Load(c0, f)
        acc == Accepts(c0, f)
        key == IF acc THEN "loaded" ELSE IF f.bad # "" THEN "malformed" ELSE "refused"
        declared == TLCEval(All(c))
        brief == TLCEval({[urn |-> declared[j].urn, name |-> declared[j].name, kind |-> declared[j].kind, compound |-> declared[j].compound] : j \in DOMAIN declared})
        ty == Flat([j \in DOMAIN c |-> [k \in DOMAIN c[j].types |-> <<c[j].urn, c[j].types[k].name, c[j].types[k].variadic, c[j].types[k].structure, c[j].types[k].params>>]])
        vs == Flat([j \in DOMAIN c |-> [k \in DOMAIN c[j].vars |-> <<c[j].urn, c[j].vars[k].name, c[j].vars[k].parent, c[j].vars[k].functions>>]])
        ms == SelectSeq([j \in DOMAIN c |-> <<c[j].urn, c[j].meta>>], LAMBDA m : m[2] # "")
    IN Must(o.st = IF acc THEN "ok" ELSE "err", "P06", "coll.load." \o key, "file " \o f.urn \o " (" \o f.bad \o "): " \o o.st \o " " \o o.msg)
    \o IF o.st = "panic" THEN <<>> ELSE
       Must(ToSet(o.urns) = {c[j].urn : j \in DOMAIN c}, "P06", "coll." \o key \o ".urns", "loaded " \o ToString(o.urns))
    \o Flat([x \in 1..3 |-> LET k == <<"scalar", "aggregate", "window">>[x] want == SelectSeq(declared, LAMBDA e : e.kind = k) got == SelectSeq(o.fns, LAMBDA e : e.kind = k) IN
            Must(SameSet(want, got), "P06", "coll." \o key \o "." \o k, FirstDiff(want, got))])
    \o Must(SameSet(ty, o.types), "P06", "coll." \o key \o ".types", "types " \o ToString(o.types) \o " declared " \o ToString(ty))
    \o Must(SameSet(vs, o.vars), "P06", "coll." \o key \o ".variations", "variations " \o ToString(o.vars))
    \o Must(SameSet(ms, o.meta), "P06", "coll." \o key \o ".metadata", "metadata " \o ToString(o.meta))
    \o Must(\A j \in DOMAIN o.lookup : o.lookup[j] = "same", "P06", "coll." \o key \o ".lookup", "look-up by signature gives something else: " \o ToString(o.lookup))
    \o (IF ~acc \/ o.st # "ok" THEN <<>> ELSE
            Must(SameSet(Own(f), Filled(o.resolved)), "P06", "coll.file.resolve", "the file's functions resolved: " \o FirstDiff(Own(f), Filled(o.resolved)))
         \o Must(SameSet(Own(f), Filled(o.variants)), "P06", "coll.file.variants", "the file's function variants: " \o FirstDiff(Own(f), Filled(o.variants))))
    \o Flat([j \in DOMAIN o.plain |-> SimpleV(brief, o.plain[j])])
RECURSIVE HistV(_, _, _)
HistV(c, st, obs) == IF st = <<>> THEN <<>> ELSE StepV(c, Head(st).f, Head(obs)) \o HistV(Load(c, Head(st).f), Tail(st), Tail(obs))
TheVerdict(e) == IF e.hang = "yes" THEN <<<<"P06", "coll.hang", "no answer or fatal crash">>>>
    ELSE IF e.op = "fly" THEN Flat([j \in DOMAIN e.vs |-> LET v == e.vs[j] o == e.obs[j] k == "coll.fly." \o v.kind IN
         Must((o.st = "ok") = FlyOk(v), "P06", k \o (IF FlyOk(v) THEN ".refused" ELSE ".accepted"), o.st \o " " \o o.msg \o " " \o ToString(v))
         \o IF o.st # "ok" \/ ~FlyOk(v) THEN <<>> ELSE Must(o.e = FlyEntry(v), "P06", k, "made " \o ToString(o.e) \o " expected " \o ToString(FlyEntry(v)))])
    ELSE IF e.op = "load" THEN HistV(<<>>, e.steps, e.obs)
    ELSE \* a file shipped with the library, described from its YAML text
         LET c == <<e.f>> o == e.obs[1] IN
         Flat([x \in 1..3 |-> LET k == <<"scalar", "aggregate", "window">>[x] want == TLCEval(ToSet(OfKind(c, k))) got == TLCEval({y \in ToSet(o.fns) : y.kind = k}) IN
            Must(\A w \in want : \/ w \in got \/ (\E v \in want : v # w /\ Key(v) = Key(w)), "P06", "default." \o k, ToString({w \in want : w \notin got}))
            \o Must({Key(w) : w \in want} = {Key(g) : g \in got}, "P06", "default." \o k \o ".set", "signatures differ")])
=============================================================================
