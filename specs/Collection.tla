----------------------------- MODULE Collection -----------------------------
(* The collection of loaded extension files as a state machine.
   A file f: [urn, deps: <<<<alias, urn>>..>>, meta, types: <<[name, params, variadic, structure]..>>, vars: <<[name, parent, functions]..>>,
   fns: <<[kind, name, desc, impls]..>>, bad: "" or what is wrong with its text].
   An implementation: [args, opts, var, null, ret, sess, det, ordered, maxset, decomp, inter, wt]; "" leaves a field unstated. *)
EXTENDS TypeExpr

(* ---- signatures ---- *)
Shorts == <<<<"string", "str">>, <<"binary", "vbin">>, <<"timestamp", "ts">>, <<"timestamp_tz", "tstz">>, <<"interval_year", "iyear">>,
            <<"interval_day", "iday">>, <<"fixed_binary", "fbin">>, <<"fixed_char", "fchar">>, <<"varchar", "vchar">>, <<"decimal", "dec">>,
            <<"precision_time", "pt">>, <<"precision_timestamp", "pts">>, <<"precision_timestamp_tz", "ptstz">>>>
Short(t) == CASE t.k = "udt" -> "u!" \o t.p[2]
              [] t.k = "derive" -> (LET l == t.c[Len(t.c)] IN l.k)
              [] OTHER -> IF \E j \in DOMAIN Shorts : Shorts[j][1] = t.k THEN Shorts[CHOOSE j \in DOMAIN Shorts : Shorts[j][1] = t.k][2] ELSE t.k
ArgShort(a) == CASE a.k = "enum" -> "req" [] a.k = "type" -> "type" [] OTHER -> Short(a.c[1])
Compound(name, im) == name \o ":" \o JoinStr([j \in DOMAIN im.args |-> ArgShort(im.args[j])], "_")

(* ---- what a file declares: one entry per function implementation ---- *)
Dflt(v, d) == IF v = "" THEN d ELSE v
VarEntry(v) == IF v = <<>> THEN <<>> ELSE <<ToString(v[1]), ToString(v[2]), Dflt(v[3], "CONSISTENT")>>
Entry(f, fn, im, kind, wt) ==
    [kind |-> kind, urn |-> f.urn, name |-> fn.name, compound |-> Compound(fn.name, im), desc |-> fn.desc,
     args |-> im.args, opts |-> im.opts, var |-> VarEntry(im.var), null |-> Dflt(im.null, "MIRROR"),
     sess |-> Dflt(im.sess, "false"), det |-> Dflt(im.det, "true"), meta |-> fn.meta,
     agg |-> IF kind = "scalar" THEN <<>> ELSE <<Dflt(im.ordered, "false"), Dflt(im.maxset, "0"), Dflt(im.decomp, "NONE")>>,
     inter |-> IF kind = "scalar" THEN NilNode ELSE im.inter, wt |-> wt]
Entries(f, kind, as) == Flat([j \in DOMAIN f.fns |-> IF f.fns[j].kind # kind THEN <<>> ELSE
     [k \in DOMAIN f.fns[j].impls |-> LET im == f.fns[j].impls[k] IN
         Entry(f, f.fns[j], im, as, IF as # "window" THEN "" ELSE IF kind = "aggregate" THEN "STREAMING" ELSE Dflt(im.wt, "PARTITION"))]])
(* aggregates serve as window functions too, unless the file declares that window function itself *)
Declared(f) ==
    LET w == TLCEval(Entries(f, "window", "window"))
        aw == SelectSeq(Entries(f, "aggregate", "window"), LAMBDA e : \A j \in DOMAIN w : w[j].compound # e.compound)
    IN Entries(f, "scalar", "scalar") \o Entries(f, "aggregate", "aggregate") \o w \o aw

Own(f) == Entries(f, "scalar", "scalar") \o Entries(f, "aggregate", "aggregate") \o Entries(f, "window", "window")

(* ---- a variant made on the fly: named v.name, its arguments known when every piece of the signature is a type ---- *)
Pieces == <<"i32", "string", "i64", "date", "vchar", "dec", "any1x">>
FlyArgs(v) == IF v.sig = <<>> \/ \E j \in DOMAIN v.sig : v.sig[j] \in {"vchar", "dec", "any1x"} THEN <<>>
              ELSE [j \in DOMAIN v.sig |-> Nd("value", <<v.name, "", "false">>, <<Nd(v.sig[j], <<"2">>, <<>>)>>)]
FlyName(v) == v.name \o (IF v.plain THEN "" ELSE ":") \o (IF v.plain THEN "" ELSE JoinStr(v.sig, "_"))
FlyOk(v) == v.kind = "scalar" \/ v.how = "new" \/ v.decomp \in {"", "NONE"} \/ ~IsNil(v.inter)
FlyEntry(v) ==
    LET agg == v.kind # "scalar" full == v.how # "new" dec == IF full THEN Dflt(v.decomp, "NONE") ELSE "NONE" IN
    [kind |-> v.kind, urn |-> v.urn, name |-> v.name, compound |-> FlyName(v), desc |-> "", args |-> IF v.plain THEN <<>> ELSE FlyArgs(v), opts |-> <<>>,
     var |-> IF full THEN VarEntry(v.var) ELSE <<>>, null |-> "", sess |-> IF full THEN v.sess ELSE "false", det |-> IF full THEN v.det ELSE "false", meta |-> "",
     agg |-> IF agg THEN <<IF full THEN v.ordered ELSE "false", IF full THEN v.maxset ELSE "0", dec>> ELSE <<>>,
     inter |-> IF agg /\ dec # "NONE" THEN v.inter ELSE NilNode, wt |-> IF v.kind = "window" THEN (IF full THEN Dflt(v.wt, "PARTITION") ELSE "PARTITION") ELSE ""]

(* ---- the machine: c = loaded files in order ---- *)
Loaded(c, urn) == \E j \in DOMAIN c : c[j].urn = urn
UrnOk(f) == f.urnok
AliasOk(a) == a \in {"dep", "D_1", "$x"}
RECURSIVE UdtRefs(_)
UdtRefs(t) == (IF t.k = "udt" THEN {t.p[2]} ELSE {}) \cup UNION {UdtRefs(t.c[j]) : j \in DOMAIN t.c}
FnTypes(f) == UNION {UNION {LET im == f.fns[j].impls[k] IN
        UNION {UdtRefs(im.args[a]) : a \in DOMAIN im.args} \cup UdtRefs(im.ret) \cup (IF f.fns[j].kind = "scalar" THEN {} ELSE UdtRefs(im.inter)) : k \in DOMAIN f.fns[j].impls} : j \in DOMAIN f.fns}
Accepts(c, f) == /\ f.bad = "" /\ UrnOk(f) /\ ~Loaded(c, f.urn)
                 /\ \A j \in DOMAIN f.deps : AliasOk(f.deps[j][1]) /\ Loaded(c, f.deps[j][2])
                 /\ FnTypes(f) \subseteq {f.types[j].name : j \in DOMAIN f.types}
Load(c, f) == IF Accepts(c, f) THEN Append(c, f) ELSE c
All(c) == Flat([j \in DOMAIN c |-> Declared(c[j])])
OfKind(c, k) == SelectSeq(All(c), LAMBDA e : e.kind = k)
(* what a plain name may resolve to *)
Named(c, kind, urn, name) == {e \in ToSet(OfKind(c, kind)) : e.urn = urn /\ e.name = name}
NamedAny(c, urn, name) == {e.compound : e \in {x \in ToSet(All(c)) : x.urn = urn /\ x.name = name}}

(* ---- the text of a file: JSON, which is YAML ---- *)
F(b, k, v) == IF b THEN k :> v ELSE <<>>
Str(s) == s
ArgDoc(a) ==
    CASE a.k = "enum" -> ("options" :> SubSeq(a.p, 3, Len(a.p))) @@ F(a.p[1] # "", "name", a.p[1]) @@ F(a.p[2] # "", "description", a.p[2])
      [] a.k = "type" -> ("type" :> Text(RT(a.c[1], Canon))) @@ F(a.p[1] # "", "name", a.p[1]) @@ F(a.p[2] # "", "description", a.p[2])
      [] OTHER -> ("value" :> Text(RT(a.c[1], Canon))) @@ F(a.p[1] # "", "name", a.p[1]) @@ F(a.p[2] # "", "description", a.p[2])
                  @@ F(a.p[3] = "true", "constant", TRUE)
Bool(s) == s = "true"
ImplDoc(im, kind) ==
    ("return" :> Text(RT(im.ret, Canon)))
    @@ F(im.args # <<>>, "args", [j \in DOMAIN im.args |-> ArgDoc(im.args[j])])
    @@ F(im.opts # <<>>, "options", FoldLeft(LAMBDA a, o : a @@ (o[1] :> ([values |-> SubSeq(o, 3, Len(o))] @@ F(o[2] # "", "description", o[2]))), <<>>, im.opts))
    @@ F(im.var # <<>>, "variadic", IF im.var = <<>> THEN <<>> ELSE ("min" :> im.var[1]) @@ F(im.var[2] # 0, "max", im.var[2]) @@ F(im.var[3] # "", "parameterConsistency", im.var[3]))
    @@ F(im.null # "", "nullability", im.null) @@ F(im.sess # "", "sessionDependent", Bool(im.sess)) @@ F(im.det # "", "deterministic", Bool(im.det))
    @@ (IF kind = "scalar" THEN <<>> ELSE
        F(im.ordered # "", "ordered", Bool(im.ordered)) @@ F(im.maxset # "", "maxset", IF im.maxset = "" THEN 0 ELSE atoi(im.maxset))
        @@ F(im.decomp # "", "decomposable", im.decomp) @@ F(~IsNil(im.inter), "intermediate", IF IsNil(im.inter) THEN "" ELSE Text(RT(im.inter, Canon))))
    @@ (IF kind = "window" THEN F(im.wt # "", "window_type", im.wt) ELSE <<>>)
FnDoc(fn) == ("name" :> fn.name) @@ F(fn.desc # "", "description", fn.desc) @@ F(fn.meta # "", "metadata", [note |-> fn.meta])
             @@ ("impls" :> [j \in DOMAIN fn.impls |-> ImplDoc(fn.impls[j], fn.kind)])
FnsDoc(f, kind) == LET fs == SelectSeq(f.fns, LAMBDA x : x.kind = kind) IN F(fs # <<>>, kind \o "_functions", [j \in DOMAIN fs |-> FnDoc(fs[j])])
TypeDoc(t) == ("name" :> t.name) @@ F(t.variadic = "true", "variadic", TRUE) @@ F(t.structure # "", "structure", t.structure)
              @@ F(t.params # <<>>, "parameters", [j \in DOMAIN t.params |-> [name |-> t.params[j][1], type |-> t.params[j][2]]])
Doc(f) == F(f.urn # "", "urn", f.urn)
    @@ F(f.deps # <<>>, "dependencies", FoldLeft(LAMBDA a, d : a @@ (d[1] :> d[2]), <<>>, f.deps))
    @@ F(f.meta # "", "metadata", [note |-> f.meta])
    @@ F(f.types # <<>>, "types", [j \in DOMAIN f.types |-> TypeDoc(f.types[j])])
    @@ F(f.vars # <<>>, "type_variations", [j \in DOMAIN f.vars |-> f.vars[j]])
    @@ FnsDoc(f, "scalar") @@ FnsDoc(f, "aggregate") @@ FnsDoc(f, "window")
=============================================================================
