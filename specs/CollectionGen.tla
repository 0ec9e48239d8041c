---------------------------- MODULE CollectionGen ----------------------------
EXTENDS Collection
VARIABLES n, sc
UrnPool == <<"extension:a:one", "extension:a:two", "extension:b:three">>
BadUrns == <<"", "a:one", "extension:one", "extension:a:b:c", "extension::x", "https://x/y.yaml", "Extension:a:one">>
TNamesC == <<"point", "A_b9">>
FNames == <<"f", "g", "add">>
CG(tys) == [ints |-> <<"P">>, anys |-> <<"any1">>, any |-> TRUE, udts |-> tys]
NoUdt(t) == UdtRefs(t) = {}
GT(tys, d) == LET t == TLCEval(GTE(CG(IF tys = <<>> THEN <<"nowhere">> ELSE tys), d)) IN IF tys = <<>> /\ ~NoUdt(t) THEN Nd("i32", <<"2">>, <<>>) ELSE t
GArg(tys, j) == LET w == RE(1..12) nm == Pick(<<"x", "", "arg" \o ToString(j)>>) ds == Pick(<<"", "", "some text">>) IN
    CASE w = 1 -> Nd("enum", <<nm, ds, "A", "B">>, <<>>)
      [] w = 2 -> Nd("type", <<nm, ds>>, <<GT(tys, 0)>>)
      [] OTHER -> Nd("value", <<nm, ds, Pick(<<"false", "false", "true">>)>>, <<GT(tys, 1)>>)
GImpl(tys, kind) ==
    LET m == RE(0..3) as == TLCEval([j \in 1..m |-> GArg(tys, j)]) IN
    [args |-> as, opts |-> Pick(<< <<>>, <<>>, << <<"overflow", "", "SILENT", "ERROR">> >>, << <<"a", "what", "X">>, <<"b", "", "Y", "Z">> >> >>),
     var |-> IF m = 0 \/ Chance(2, 3) THEN <<>> ELSE <<RE(0..2), Pick(<<0, 3>>), Pick(<<"", "CONSISTENT", "INCONSISTENT">>)>>,
     null |-> Pick(<<"", "", "MIRROR", "DECLARED_OUTPUT", "DISCRETE">>), ret |-> GT(tys, 1),
     sess |-> Pick(<<"", "", "true", "false">>), det |-> Pick(<<"", "", "true", "false">>),
     ordered |-> Pick(<<"", "true", "false">>), maxset |-> Pick(<<"", "3">>), decomp |-> Pick(<<"", "NONE", "ONE", "MANY">>),
     inter |-> IF Chance(1, 2) THEN NilNode ELSE GT(tys, 1), wt |-> Pick(<<"", "STREAMING", "PARTITION">>)]
GFn(tys, x) == LET k == Pick(<<"scalar", "scalar", "aggregate", "window">>) m == RE(1..2) IN
    [kind |-> k, name |-> Pick(FNames), desc |-> Pick(<<"", "text">>), meta |-> Pick(<<"", "", "m1">>), impls |-> TLCEval([j \in 1..m |-> GImpl(tys, k)])]
(* signatures within a file are unique per kind *)
DedupIm(name, ims, seen) == FoldLeft(LAMBDA a, im : IF \E j \in DOMAIN a[1] : Compound(name, a[1][j]) = Compound(name, im) THEN a
                               ELSE IF Compound(name, im) \in seen THEN a ELSE <<Append(a[1], im)>>, <<<<>>>>, ims)[1]
DedupFns(fns) == FoldLeft(LAMBDA a, fn : LET seen == UNION {{Compound(a[j].name, a[j].impls[k]) : k \in DOMAIN a[j].impls} : j \in {j \in DOMAIN a : a[j].kind = fn.kind}}
                                            ims == DedupIm(fn.name, fn.impls, seen)
                                        IN IF ims = <<>> THEN a ELSE Append(a, [fn EXCEPT !.impls = ims]), <<>>, fns)
GType1(nm) == [name |-> nm, params |-> Pick(<< <<>>, << <<"T", "dataType">>, <<"n", "integer">> >> >>), variadic |-> Pick(<<"false", "true">>), structure |-> Pick(<<"", "", "i32">>)]
GFile(x) ==
    LET tys == TLCEval(Pick(<< <<>>, <<"point">>, TNamesC >>))
        declTys == TLCEval(IF Chance(1, 8) /\ tys # <<>> THEN SubSeq(tys, 1, Len(tys) - 1) ELSE tys)    \* sometimes a used type is missing
        m == TLCEval(RE(0..4))
        urn == TLCEval(IF Chance(1, 12) THEN Pick(BadUrns) ELSE Pick(UrnPool))
        nv == TLCEval(RE(0..2))
    IN [urn |-> urn, urnok |-> In(urn, UrnPool), meta |-> Pick(<<"", "file note">>),
        deps |-> IF Chance(3, 4) THEN <<>> ELSE <<<<Pick(<<"dep", "D_1", "$x", "9a", "a-b">>), Pick(UrnPool)>>>>,
        types |-> TLCEval([j \in DOMAIN declTys |-> GType1(declTys[j])]),
        vars |-> TLCEval([j \in 1..nv |-> [name |-> <<"v1", "v2">>[j], parent |-> Pick(<<"i32", "string">>), functions |-> Pick(<<"INHERITS", "SEPARATE">>)]]),
        fns |-> DedupFns(TLCEval([j \in 1..m |-> GFn(tys, j)])), bad |-> ""]
(* malformed texts: the document of f with one part replaced *)
BadFn(im) == [name |-> "bad", impls |-> <<im>>]
BadDocs(f) == <<
    <<"type text", [scalar_functions |-> <<BadFn([args |-> <<[value |-> "notatype"]>>, return |-> "i32"])>>] @@ Doc(f)>>,
    <<"return text", [urn |-> f.urn, scalar_functions |-> <<BadFn([return |-> "list<i32"])>>]>>,
    <<"empty argument", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[name |-> "x"]>>, return |-> "i32"])>>]>>,
    <<"argument name", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[name |-> 5, value |-> "i32"]>>, return |-> "i32"])>>]>>,
    <<"argument value", [urn |-> f.urn, aggregate_functions |-> <<BadFn([args |-> <<[value |-> 5]>>, return |-> "i32"])>>]>>,
    <<"argument type", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[type |-> <<"i32">>]>>, return |-> "i32"])>>]>>,
    <<"enum options", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[options |-> "A"]>>, return |-> "i32"])>>]>>,
    <<"enum option", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[options |-> <<1, 2>>]>>, return |-> "i32"])>>]>>,
    <<"constant", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[value |-> "i32", constant |-> "maybe"]>>, return |-> "i32"])>>]>>,
    <<"description", [urn |-> f.urn, window_functions |-> <<BadFn([args |-> <<[value |-> "i32", description |-> <<1>>]>>, return |-> "i32"])>>]>>,
    <<"args", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> "i32", return |-> "i32"])>>]>>,
    <<"impls", [urn |-> f.urn, scalar_functions |-> <<[name |-> "bad", impls |-> "i32"]>>]>>,
    <<"functions", [urn |-> f.urn, scalar_functions |-> "f"]>>,
    <<"types", [urn |-> f.urn, types |-> "t"]>>,
    <<"intermediate", [urn |-> f.urn, aggregate_functions |-> <<BadFn([return |-> "i32", intermediate |-> "i33"])>>]>>,
    <<"variadic", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[value |-> "i32"]>>, variadic |-> "lots", return |-> "i32"])>>]>>,
    <<"undeclared type", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[value |-> "list<u!ghost>"]>>, return |-> "i32"])>>]>>,
    <<"undeclared return", [urn |-> f.urn, window_functions |-> <<BadFn([return |-> "u!ghost?"])>>]>>,
    <<"undeclared derived", [urn |-> f.urn, scalar_functions |-> <<BadFn([args |-> <<[value |-> "varchar<P>"]>>, return |-> "Q = P + 1\nmap<i32, u!ghost<varchar<Q>>>"])>>]>>,
    <<"undeclared intermediate", [urn |-> f.urn, aggregate_functions |-> <<BadFn([return |-> "i32", intermediate |-> "func<u!ghost -> i32>"])>>]>>,
    <<"not a map", <<1, 2>>>>,
    <<"metadata", [urn |-> f.urn, metadata |-> 5]>>,
    <<"dependencies", [urn |-> f.urn, dependencies |-> <<"x">>]>> >>
RawBad == <<"", "{", "urn: [", "\tx", "urn: extension:a:one\n  bad: [1", "just text", "---\n- 1\n", "urn: extension:a:one\nscalar_functions:\n  - name: f\n    impls: [{args: [{value: \"i32">>
GStep(x) ==
    LET f == TLCEval(GFile(0)) w == RE(1..8) IN
    IF w = 1 THEN LET b == TLCEval(Pick(BadDocs(f))) IN [f |-> [f EXCEPT !.bad = b[1]], doc |-> b[2], raw |-> ""]
    ELSE IF w = 2 /\ Chance(1, 3) THEN LET r == RE(DOMAIN RawBad) IN [f |-> [f EXCEPT !.bad = "raw" \o ToString(r)], doc |-> [x |-> 1], raw |-> IF RawBad[r] = "" THEN " " ELSE RawBad[r]]
    ELSE IF w = 2 /\ Chance(1, 3) THEN LET c == Pick(<<"cut", "cutend">>) IN [f |-> [f EXCEPT !.bad = "reader " \o c], doc |-> Doc(f), raw |-> c]     \* the reader fails midway, or once everything is read
    ELSE [f |-> f, doc |-> Doc(f), raw |-> ""]
GFly(x) ==
    [kind |-> Pick(<<"scalar", "aggregate", "window">>), how |-> Pick(<<"new", "opts", "opts">>), urn |-> Pick(UrnPool), name |-> Pick(<<"f", "add", "Agg_1">>), plain |-> Chance(1, 6),
     sig |-> TLCEval([j \in 1..RE(0..3) |-> Pick(Pieces)]), var |-> IF Chance(1, 2) THEN <<>> ELSE <<RE(0..2), Pick(<<0, 3>>), Pick(<<"CONSISTENT", "INCONSISTENT">>)>>,
     sess |-> Pick(<<"true", "false">>), det |-> Pick(<<"true", "false">>), ordered |-> Pick(<<"true", "false">>), maxset |-> Pick(<<"0", "3">>),
     decomp |-> Pick(<<"", "NONE", "ONE", "MANY">>), inter |-> IF Chance(1, 3) THEN NilNode ELSE GT(<<>>, 1), wt |-> Pick(<<"", "STREAMING", "PARTITION">>)]
FlyText(v) == v @@ [id |-> FlyName(v), itext |-> IF IsNil(v.inter) THEN "" ELSE Text(RT(v.inter, Canon))]
GScn(m) == IF Chance(1, 8) THEN LET vs == TLCEval([j \in 1..8 |-> FlyText(TLCEval(GFly(j)))]) IN [id |-> m, op |-> "fly", tag |-> "fly", vs |-> vs] ELSE
           LET k == RE(1..5) st == TLCEval([j \in 1..k |-> GStep(j)]) IN [id |-> m, op |-> "load", tag |-> ToString(k), steps |-> st]
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = TLCEval(GScn(Base + n')) /\ Emit(sc')
RECURSIVE Run(_, _)
Run(c, st) == IF st = <<>> THEN c ELSE Run(Load(c, Head(st).f), Tail(st))
Law == sc.op = "load" => LET c == Run(<<>>, sc.steps) IN
    /\ \A i, j \in DOMAIN c : c[i].urn = c[j].urn => i = j
    /\ \A k \in {"scalar", "aggregate", "window"} : LET o == OfKind(c, k) IN \A i, j \in DOMAIN o : (o[i].urn = o[j].urn /\ o[i].compound = o[j].compound) => i = j
=============================================================================
