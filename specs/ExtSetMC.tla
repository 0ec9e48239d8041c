------------------------------ MODULE ExtSetMC ------------------------------
(* The design, explored exhaustively with small constants: an implementation free to answer anything the operators
   allow keeps anchors unambiguous and stable, and what it writes reads back to the same meaning. *)
EXTENDS ExtSet
VARIABLES st, last
CONSTANTS Anchors, Urns, Names
A2 == {<<0, 1>>, <<0, 2>>}
A3 == A2 \cup {<<0, 3>>}
Ids == Urns \X Names
MCKinds == {"type", "func"}
Init == /\ \E S \in SUBSET (Anchors \X Urns) : Functional(S) /\ \E k \in MCKinds : \E T \in SUBSET (Anchors \X Ids) :
              /\ Functional(T) /\ Cardinality(T) <= 2 /\ \A x \in T : x[2][1] \in Snd(S)
              /\ st = [Fresh0 EXCEPT !.urns = S, !.tab[k] = T]
        /\ last = <<"init">>
Get == \E k \in MCKinds, id \in Ids, a \in Anchors : MayAnswer(st, k, id, a) /\ st' = Answer(st, k, id, a) /\ last' = <<"get", k, id, a>>
FindU == \E u \in Urns, ok \in BOOLEAN, a \in Anchors : MayFind(st, u, ok, a) /\ st' = Find(st, u, ok, a) /\ last' = <<"find">>
Next == Get \/ FindU
Inv == Unambiguous(st) /\ Consistent(st)
Stable == [][Keeps(st, st')]_<<st, last>>
Repeatable == [][\A k \in MCKinds : st.got[k] \subseteq st'.got[k]]_<<st, last>>
(* Writing in ascending order and reading back gives the same tables. *)
RECURSIVE SortPairs(_)
SortPairs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Lt(x[1], y[1]) IN <<m>> \o SortPairs(S \ {m})
RoundTrip == st.pend = {} =>
    LET us == SortPairs(st.urns)
        back(u) == (CHOOSE x \in st.urns : x[2] = u)[1]
        dk(k) == LET s == SortPairs(st.tab[k]) IN [j \in DOMAIN s |-> <<k, back(s[j][2][1]), s[j][1], s[j][2][2]>>]
        ds == dk("type") \o dk("var") \o dk("func")
    IN MayWrite(st, us, ds) /\ ReadState(us, ds).tab = st.tab
View == st
=============================================================================
