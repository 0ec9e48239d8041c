------------------------------ MODULE RelsJudge ------------------------------
EXTENDS Rels, Judge
Cnt(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
BagEq(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : Cnt(a, a[j]) = Cnt(b, a[j])
Same(a, b) == \/ Len(a) = Len(b) /\ \A j \in DOMAIN a : a[j] = b[j]
RECURSIVE LegacyAll(_)
LegacyAll(r) == (Op(r).k \in {"hash_join", "merge_join"} => LegacyOk(Op(r))) /\ \A j \in DOMAIN InputsR(r) : LegacyAll(InputsR(r)[j])
Schemas(r) == LET p == PreR(r) IN [j \in DOMAIN p |-> SchemaR(p[j])]
Maps(r) == LET p == PreR(r) IN [j \in DOMAIN p |-> IF HasEmit(Op(p[j])) THEN [s |-> "emit", m |-> MappingOf(Op(p[j]))] ELSE [s |-> "direct", m |-> <<>>]]
RECURSIVE LegacyView(_)
LegacyView(r) == LET x == Op(r) ks == Kids(x, "keys") l == Kids(x, "left_keys") h == Kids(x, "right_keys") IN
    /\ x.k \in {"hash_join", "merge_join"} => Len(l) = Len(ks) /\ Len(h) = Len(ks) /\ \A j \in DOMAIN ks : Kid(ks[j], "left").c = l[j].c /\ Kid(ks[j], "right").c = h[j].c
    /\ \A j \in DOMAIN InputsR(r) : LegacyView(InputsR(r)[j])
View(e) == IF e.vst = "-" THEN <<>> ELSE LET k == "rel.view." \o Op(e.r).k IN
    Must(e.vst = "ok", "P25", k \o ".call", e.vst)
    \o IF e.vst # "ok" THEN <<>> ELSE
       Must(Said(NormR(e.view)) = DefR(NormR(e.r)), "P25", k, "the accessors say " \o ToString(e.view))
    \o Must(LegacyView(e.view), "P25", k \o ".legacykeys", "the key lists by side differ from the keys: " \o ToString(e.view))
(* ---- reading and writing one relation ---- *)
Wire(e) ==
    LET k == "rel.wire." \o Op(e.r).k IN
       Must(e.st = "ok", "P14", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(NormR(e.out) = NormR(e.r), "P14", k \o ".roundtrip", "written as " \o ToString(e.out))
    \o Must(Op(e.r).k # "write" \/ Attr(Op(e.out), "output", "-") = Attr(Op(e.r), "output", "-"), "P14", k \o ".output", "the output mode is lost")
    \o Must(LegacyAll(e.out), "P14", k \o ".legacy", "deprecated key lists disagree with the keys")
    \o Must(e.out2 = e.out, "P14", k \o ".again", "read back and written again as " \o ToString(e.out2))
    \o Must(e.planrel = e.out, "P14", k \o ".planrel", "as a plan relation " \o ToString(e.planrel))
    \o Must(e.insame = e.r, "P14", k \o ".input", "the input was altered")
    \o Must(e.reg = "same", "P14", k \o ".anchors", "reading changed the declarations: " \o e.reg)
    \o Must(e.maps = Maps(e.r), "P14", k \o ".mapping", "output mappings " \o ToString(e.maps))
    \o Must(e.sst = "ok" \/ ~SchemaKnown(e.r), "P15", k \o ".schemacall", e.sst)
    \o (IF e.sst # "ok" \/ ~SchemaKnown(e.r) THEN <<>> ELSE
        LET want == Schemas(e.r) bad == {j \in DOMAIN want : j \notin DOMAIN e.schemas \/ e.schemas[j] # want[j]}
            ops == [j \in DOMAIN want |-> Op(PreR(e.r)[j]).k] inner == {j \in bad : \A i \in bad : i <= j} IN
           Must(bad = {}, "P15", "rel.schema." \o (IF bad = {} THEN "" ELSE ops[CHOOSE j \in inner : TRUE]), "schemas " \o ToString(e.schemas) \o " expected " \o ToString(want))
        \o Must(Op(e.r).k = "write" \/ e.schemas2 = e.schemas, "P15", "rel.schema.readback", "the relation read back has another schema")
        \o Must(e.after = e.out, "P15", "rel.schema.altered", "asking for the schema changed the relation"))
(* ---- a masked read: its columns are those the mask keeps ---- *)
FlatMask(m) == \A j \in DOMAIN Kids(Kid(m, "select"), "struct_items") : ~Has(Kids(Kid(m, "select"), "struct_items")[j], "child")
Masked(e) ==
    LET k == "rel.mask" m == Kid(Op(e.r), "projection") it == Kids(Kid(m, "select"), "struct_items") bs == BS(Op(e.r)) IN
       Must(e.st = "ok", "P14", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(NormR(e.out) = NormR(e.r), "P14", k \o ".roundtrip", "written as " \o ToString(e.out))
    \o Must(e.out2 = e.out, "P14", k \o ".again", "read back and written again as " \o ToString(e.out2))
    \o Must(~FlatMask(m) \/ Len(it) < 2 \/ (\E j \in DOMAIN it : atoi(Attr(it[j], "field", "0")) >= Len(bs)) \/ e.schema = [j \in DOMAIN it |-> bs[atoi(Attr(it[j], "field", "0")) + 1]],
            "P15", "rel.schema.projection", "schema " \o ToString(e.schema))
(* ---- plans ---- *)
Out(r) == IF Op(r).k = "write" THEN Attr(Op(r), "output", "-") ELSE ""
Plan(e) ==
    LET k == "rel.plan" rest(x) == SelectSeq(x.c, LAMBDA y : y.k \notin {"relations", "extension_urns", "extensions", "parameter_bindings"})
        ri == Kids(e.in, "relations") ro == Kids(e.out, "relations") pb(x) == LET s == Kids(x, "parameter_bindings") IN [j \in DOMAIN s |-> [s[j] EXCEPT !.c = [i \in DOMAIN s[j].c |-> IF s[j].c[i].k = "value" THEN As("value", NormLit(As("literal", s[j].c[i]))) ELSE s[j].c[i]]]]
        inr(p) == IF p.c[1].k = "root" THEN As("rel", Kid(p.c[1], "input")) ELSE As("rel", p.c[1]) IN
       Must(e.st = "ok", "P14", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must([j \in DOMAIN ro |-> NormRoot(ro[j])] = [j \in DOMAIN ri |-> NormRoot(ri[j])], "P14", k \o ".relations", "written as " \o ToString(ro))
    \o Must([j \in DOMAIN ro |-> Out(inr(ro[j]))] = [j \in DOMAIN ri |-> Out(inr(ri[j]))], "P14", k \o ".output", "the output mode is lost")
    \o Must(rest(e.out) = rest(e.in), "P14", k \o ".rest", "written as " \o ToString(rest(e.out)))
    \o Must(pb(e.out) = pb(e.in), "P14", k \o ".bindings", "written as " \o ToString(pb(e.out)))
    \o Must(BagEq(e.declsout, e.declsin), "P14", k \o ".decls", "declarations " \o ToString(e.declsout))
    \o Must(e.again = "true", "P14", k \o ".again", "read back and written again differently")
    \o Must(e.insame = "true", "P14", k \o ".input", "the input was altered")
    \o Must(e.acc = "true", "P14", k \o ".accessors", "the accessors disagree with the plan: " \o e.accwhy)
    \o Must(\A j \in DOMAIN ri : ~SchemaKnown(inr(ri[j])) \/ e.schemas[j] = SchemaR(inr(ri[j])), "P15", k \o ".schema", "schemas " \o ToString(e.schemas))
(* ---- copies ---- *)
Rw(r, s) == MapExprs(r, LAMBDA x : Repl(x, s))
NoEffect(e) == (\A j \in DOMAIN e.ins : e.ins[j] = <<>>) /\ (e.how = "rewrite" => LET es == ExprsOf(NormR(e.r)) IN \A j \in DOMAIN es : ~Hit(es[j], e.s))
Copy(e) ==
    LET k == "rel." \o e.how \o "." \o Op(e.r).k old == InputsR(e.r) ins == [j \in DOMAIN old |-> IF e.ins[j] = <<>> THEN old[j] ELSE e.ins[j][1]]
        body == IF e.how = "rewrite" THEN Rw(NormR(e.r), e.s) ELSE e.r
        want == IF old = <<>> THEN body ELSE WithInputs(body, ins)
        es == ExprsOf(NormR(e.r)) en == [j \in DOMAIN es |-> NormE(es[j])] seen == [j \in DOMAIN e.seen |-> NormE(e.seen[j])]
        kr == KeyRefs(NormR(e.r)) kn == [j \in DOMAIN kr |-> NormE(kr[j])] IN
       Must(e.rst = "ok", "P17", k \o ".read", e.rst \o " " \o e.rmsg)
    \o IF e.rst # "ok" THEN <<>> ELSE
       Must(NormR(e.orig) = NormR(e.r), "P17", k \o ".original", "the original became " \o ToString(e.orig))
    \o IF e.how \in {"less", "more"} THEN Must(e.st = "err", "P17", k \o ".count", "a wrong number of inputs was accepted: " \o e.st)
       ELSE IF e.how = "fail" THEN Must(e.st = "err" /\ e.cause = "true", "P17", k \o ".error", "the failure of the rewrite was not passed on: " \o e.st)
       (* the rewrite looks expressions up by how they are written; where that does not agree with the normal form nothing is required *)
       ELSE IF e.how = "rewrite" /\ \E j \in DOMAIN seen : (e.hit[j] = "yes") # Hit(e.seen[j], e.s) THEN <<>> ELSE
       Must(e.st = "ok", "P17", k \o ".call", e.st \o " " \o e.msg)
    \o IF e.st # "ok" THEN <<>> ELSE
       Must(NormR(e.out) = NormR(want), "P17", k \o ".result", "became " \o ToString(e.out))
    \o Must(e.how # "rewrite" \/ BagEq(seen, en) \/ BagEq(seen, en \o kn), "P17", k \o ".visited", "rewrote " \o ToString(e.seen))
    \o Must(e.how # "rewrite" \/ ~NoEffect(e) \/ e.same = "true", "P17", k \o ".identity", "nothing changed but another relation was returned")
    \o Must(e.insame = "true", "P17", k \o ".inputs", "an input was altered")
(* ---- histories ---- *)
RECURSIVE Steps2(_, _, _, _)
Step(pool, st) == LET r == pool[st.h] IN
    CASE st.a = "remap" -> IF RemapOk(r, st.m) THEN Append(pool, Remap(r, st.m)) ELSE pool
      [] st.a = "copy" -> Append(pool, r)
      [] st.a = "fetch" -> Append(pool, R(Msg("fetch", <<As("input", r), Sc("offset", "3"), Sc("count", "4")>>)))
      [] st.a = "cross" -> Append(pool, R(Msg("cross", <<As("left", r), As("right", pool[st.g])>>)))
      [] OTHER -> pool
(* a write's output mode does not reach its message (P14's concern) *)
WithOut(x, w) == IF Op(w).k = "write" /\ Op(x).k = "write" THEN [x EXCEPT !.c[1].c = SelectSeq(@, LAMBDA y : y.k # "output") \o Kids(Op(w), "output")] ELSE x
Ne(r) == NormR(NormEmits(r))
Steps2(e, pool, j, acc) ==
    IF j > Len(e.steps) \/ acc # <<>> THEN acc ELSE
    LET st == e.steps[j] o == e.obs[j] k == "rel.pool." \o st.a \o "." \o Op(pool[st.h]).k new == TLCEval(Step(pool, st)) grew == Len(new) > Len(pool) \/ st.a = "schema"
        v == Must(o.st = IF grew THEN "ok" ELSE "err", "P16", k \o (IF grew THEN ".refused" ELSE ".accepted"), o.st \o " " \o o.msg)
          \o IF o.st # (IF grew THEN "ok" ELSE "err") THEN <<>> ELSE
             Must(Len(o.pool) = Len(new), "P16", k \o ".count", "pool size")
          \o Must(\A i \in DOMAIN pool : o.pool[i] = (IF j = 1 THEN e.first[i] ELSE e.obs[j - 1].pool[i]), "P16", k \o ".altered", "an existing relation changed")
          \o (IF Len(new) = Len(pool) \/ Len(o.pool) # Len(new) THEN <<>> ELSE
               LET x == o.pool[Len(new)] w == new[Len(new)] IN
               Must(x.t = SchemaR(w), "P16", k \o ".schema", "schema " \o ToString(x.t) \o " expected " \o ToString(SchemaR(w)))
            \o Must(st.a # "remap" \/ x.t = [i \in DOMAIN st.m |-> o.pool[st.h].t[st.m[i] + 1]], "P16", k \o ".pick", "not the columns asked for")
            \o Must(Ne(WithOut(x.r, w)) = Ne(w), "P16", k \o ".result", "became " \o ToString(x.r)))
    IN Steps2(e, new, j + 1, acc \o v)
Pool(e) == Must(e.rst = "ok", "P16", "rel.pool.read", e.rst \o " " \o e.rmsg) \o IF e.rst # "ok" THEN <<>> ELSE Steps2(e, <<e.r>>, 1, <<>>)
TheVerdict(e) ==
    IF e.hang = "yes" THEN <<<<"P25", "rel.hang." \o e.op, "no answer or fatal crash">>, <<CASE e.op = "copy" -> "P17" [] e.op = "pool" -> "P16" [] OTHER -> "P14", "rel.hang." \o e.op, "no answer or fatal crash">>>> ELSE
    CASE e.op = "wire" -> Wire(e) \o View(e) [] e.op = "plan" -> Plan(e) [] e.op = "copy" -> Copy(e) [] e.op = "pool" -> Pool(e) [] e.op = "mask" -> Masked(e) \o View(e) [] OTHER -> <<>>
=============================================================================
