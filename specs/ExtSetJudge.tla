---------------------------- MODULE ExtSetJudge ----------------------------
(* Trace validation: each recorded call must be a step the specification allows from the state reached so far, and
   the projection recorded after it (every anchor probed, every namespace) must be the specification's state. *)
EXTENDS ExtSet, Judge
Bad(k, w) == <<<<"P07", "extset." \o k, w>>>>
S(x) == ToString(x)
Proj(e, st) == \* the recorded decode table over the probed anchors
    \A j \in DOMAIN e.dec : LET d == e.dec[j] IN   \* <<kind, anchor, ok, urn, name>>
        IF d[2] \in Fst(st.tab[d[1]]) THEN d[3] /\ <<d[2], <<d[4], d[5]>>>> \in st.tab[d[1]] ELSE ~d[3]
RECURSIVE Run(_, _, _)
RECURSIVE After(_, _, _)
Run(e, st, j) ==
    IF j > Len(e.steps) THEN <<>> ELSE
    LET s == e.steps[j] r == e.obs[j] IN
    IF r.st \notin {"ok", "err"} THEN Bad(s.o \o ".crash", "step " \o S(j) \o ": " \o r.msg) ELSE
    CASE s.o = "parse" ->
           IF Readable(s.us, s.ds) THEN
              IF r.st # "ok" THEN Bad("parse.refused", "step " \o S(j) \o ": valid declarations refused: " \o r.msg)
              ELSE After(e, ReadState(s.us, s.ds), j)
           ELSE IF r.st = "ok" THEN Bad("parse.accepted", "step " \o S(j) \o ": ambiguous or unresolvable declarations accepted")
           ELSE After(e, st, j)
      [] s.o = "get" ->
           IF ~MayAnswer(st, s.k, s.id, r.a) THEN Bad("get." \o s.k, "step " \o S(j) \o ": anchor " \o S(r.a) \o " for " \o S(s.id) \o " in " \o S(st.tab[s.k]) \o " answered before " \o S(st.got[s.k]))
           ELSE After(e, Answer(st, s.k, s.id, r.a), j)
      [] s.o = "find" ->
           IF ~MayFind(st, s.id[1], r.ok, r.a) THEN Bad("find", "step " \o S(j) \o ": namespace " \o S(s.id[1]) \o " found " \o S(r.ok) \o " at " \o S(r.a) \o " in " \o S(st.urns))
           ELSE After(e, Find(st, s.id[1], r.ok, r.a), j)
      [] s.o = "lookup" ->
           IF ~LooksUp(st, s.k, s.a, r.ok, r.u, r.nm) THEN Bad("lookup." \o s.k, "step " \o S(j) \o ": anchor " \o S(s.a) \o " resolves to " \o S(r.ok) \o " " \o r.u \o " " \o r.nm)
           ELSE After(e, st, j)
      [] s.o = "write" ->
           IF ~MayWrite(st, r.us, r.ds) THEN Bad("write", "step " \o S(j) \o ": wrote " \o S(r.us) \o S(r.ds) \o " in state " \o S(st))
           ELSE IF ~r.again THEN Bad("write.unstable", "step " \o S(j) \o ": order differs between writings of one set")
           ELSE After(e, Written(st, r.us), j)
      [] s.o = "reread" ->
           IF ~MayWrite(st, r.us, r.ds) THEN Bad("write", "step " \o S(j) \o ": wrote " \o S(r.us) \o S(r.ds) \o " in state " \o S(st))
           ELSE IF ~Readable(r.us, r.ds) THEN (IF r.st = "ok" THEN Bad("reread.accepted", "step " \o S(j)) ELSE After(e, Written(st, r.us), j))
           ELSE IF r.st # "ok" THEN Bad("reread.refused", "step " \o S(j) \o ": " \o r.msg)
           ELSE IF r.us2 # r.us \/ r.ds2 # r.ds THEN Bad("reread.differs", "step " \o S(j) \o ": order depends on more than the set: " \o S(r.ds) \o S(r.ds2))
           ELSE After(e, ReadState(r.us, r.ds), j)
After(e, st, j) ==
    IF ~Proj(e.obs[j], st) THEN Bad("state." \o e.steps[j].o, "after step " \o S(j) \o ": decoded " \o S(e.obs[j].dec) \o " specification has " \o S(st.tab))
    ELSE IF ~(Unambiguous(st) /\ Consistent(st)) THEN Bad("invariant", "after step " \o S(j) \o S(st))
    ELSE Run(e, TLCEval(st), j + 1)
TheVerdict(e) == IF e.hang = "yes" THEN Bad("hang", "no answer or fatal crash") ELSE Run(e, Fresh0, 1)
=============================================================================
