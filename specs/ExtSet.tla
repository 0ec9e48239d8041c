------------------------------- MODULE ExtSet -------------------------------
(* Extension references of one plan: the anchor tables, and what each operation may do to them.
   An anchor is a pair <<hi, lo>> (the 32-bit number hi * 65536 + lo); an identity is <<namespace, name>>.
   State: urns  - set of <<anchor, namespace>>
          pend  - namespaces that must have an anchor by now, but which one is not known yet
          tab   - per kind, set of <<anchor, identity>>
          got   - per kind, set of <<identity, anchor>> answered so far by this set *)
EXTENDS Lib

KindsX == {"type", "var", "func"}
Loaded == {"extension:t:a", "extension:t:b"}
(* What the extension collection declares: <<what, namespace, compound name, simple name (or "" when ambiguous)>> *)
Defs == { <<"type", "extension:t:a", "ta", "ta">>, <<"type", "extension:t:a", "tb", "tb">>, <<"type", "extension:t:b", "ta", "ta">>,
          <<"var", "extension:t:a", "va", "va">>, <<"var", "extension:t:b", "vb", "vb">>,
          <<"scalar", "extension:t:a", "f:i32", "f">>, <<"scalar", "extension:t:a", "g:i32", "">>, <<"scalar", "extension:t:a", "g:i64", "">>,
          <<"scalar", "extension:t:b", "f:i32", "f">>, <<"agg", "extension:t:a", "h:i32", "">>,
          <<"window", "extension:t:a", "h:i32", "">>, <<"window", "extension:t:b", "w:i32", "w">> }
Zero == <<0, 0>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Fst(s) == {x[1] : x \in s}
Snd(s) == {x[2] : x \in s}

Fresh0 == [urns |-> {}, pend |-> {}, tab |-> [k \in KindsX |-> {}], got |-> [k \in KindsX |-> {}]]
Functional(s) == \A x, y \in s : x[1] = y[1] => x = y

(* --- reading declarations: us = sequence of <<anchor, namespace>>, ds = sequence of <<kind, namespace anchor, anchor, name>> --- *)
UrnSet(us) == {us[j] : j \in DOMAIN us}
UrnOf(us, a) == (CHOOSE x \in UrnSet(us) : x[1] = a)[2]
Resolvable(us, ds) == \A j \in DOMAIN ds : ds[j][2] \in Fst(UrnSet(us))
DeclTab(us, ds, k) == {<<ds[j][3], <<UrnOf(us, ds[j][2]), ds[j][4]>>>> : j \in {j \in DOMAIN ds : ds[j][1] = k}}
Readable(us, ds) == /\ Functional(UrnSet(us))
                    /\ Resolvable(us, ds)
                    /\ \A j \in DOMAIN ds : UrnOf(us, ds[j][2]) \in Loaded
                    /\ \A k \in KindsX : Functional(DeclTab(us, ds, k))
ReadState(us, ds) == [urns |-> UrnSet(us), pend |-> {}, tab |-> [k \in KindsX |-> DeclTab(us, ds, k)], got |-> [k \in KindsX |-> {}]]

(* --- asking for the anchor of an identity: may answer a --- *)
AnchorsOf(st, k, id) == {x[1] : x \in {y \in st.tab[k] : y[2] = id}}
MayAnswer(st, k, id, a) ==
    IF \E x \in st.got[k] : x[1] = id THEN <<id, a>> \in st.got[k]
    ELSE IF AnchorsOf(st, k, id) # {} THEN a \in AnchorsOf(st, k, id)
    ELSE a # Zero /\ a \notin Fst(st.tab[k])
Answer(st, k, id, a) ==
    [st EXCEPT !.tab[k] = @ \cup {<<a, id>>}, !.got[k] = @ \cup {<<id, a>>},
               !.pend = IF id[1] \in Snd(st.urns) THEN @ ELSE @ \cup {id[1]}]

(* --- which namespace anchors exist: what is reported must be consistent, and settles the pending ones --- *)
MayFind(st, u, ok, a) ==
    IF u \in st.pend THEN ok /\ a \notin Fst(st.urns)
    ELSE IF u \in Snd(st.urns) THEN ok /\ <<a, u>> \in st.urns
    ELSE ~ok
Find(st, u, ok, a) == IF ok THEN [st EXCEPT !.urns = @ \cup {<<a, u>>}, !.pend = @ \ {u}] ELSE st

(* --- writing the declarations out --- *)
Ascending(s) == \A j \in 1..Len(s) - 1 : Lt(s[j], s[j + 1])
MayWrite(st, us, ds) ==
    /\ Functional(UrnSet(us)) /\ Cardinality(UrnSet(us)) = Len(us)
    /\ Ascending([j \in DOMAIN us |-> us[j][1]])
    /\ st.urns \subseteq UrnSet(us)
    /\ LET extra == UrnSet(us) \ st.urns IN Cardinality(extra) = Cardinality(st.pend) /\ Snd(extra) = st.pend
    /\ Resolvable(us, ds)
    /\ \A k \in KindsX : DeclTab(us, ds, k) = st.tab[k]
    /\ Len(ds) = Cardinality(st.tab["type"]) + Cardinality(st.tab["var"]) + Cardinality(st.tab["func"])
Written(st, us) == [st EXCEPT !.urns = UrnSet(us), !.pend = {}]

(* --- resolving an anchor against the collection --- *)
TabKind(w) == IF w \in {"type", "var"} THEN w ELSE "func"
Resolves(st, w, a) ==
    IF a \notin Fst(st.tab[TabKind(w)]) THEN {}
    ELSE LET id == (CHOOSE x \in st.tab[TabKind(w)] : x[1] = a)[2] IN
         {<<d[2], d[3]>> : d \in {d \in Defs : d[1] = w /\ d[2] = id[1] /\ (d[3] = id[2] \/ (d[4] # "" /\ d[4] = id[2]))}}
LooksUp(st, w, a, ok, u, nm) == IF Resolves(st, w, a) = {} THEN ~ok ELSE ok /\ <<u, nm>> \in Resolves(st, w, a)

(* --- properties of the state --- *)
Unambiguous(st) == (\A k \in KindsX : Functional(st.tab[k]) /\ Functional(st.got[k])) /\ Functional(st.urns)
Consistent(st) == \A k \in KindsX : (\A g \in st.got[k] : <<g[2], g[1]>> \in st.tab[k])
                                 /\ (\A x \in st.tab[k] : x[2][1] \in Snd(st.urns) \cup st.pend)
Keeps(st, st2) == \A k \in KindsX : st.tab[k] \subseteq st2.tab[k]
=============================================================================
