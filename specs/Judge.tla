-------------------------------- MODULE Judge --------------------------------
(* Reads the events recorded from the real code and evaluates the specification's verdict on each. The state is the
   position in the log; C chains of positions let TLC's workers share the log. *)
EXTENDS Lib
CONSTANT Verdict(_)
VARIABLE jx
Evs == ndJsonDeserialize(IOEnv.EVENTS)
NEv == Len(Evs)
Chunk == 64
JInit == jx \in {1 + k * Chunk : k \in 0 .. ((NEv - 1) \div Chunk)}
JNext == jx % Chunk # 0 /\ jx < NEv /\ jx' = jx + 1
Clean(s) == s
Judged == LET v == Verdict(Evs[jx]) IN
    \A x \in DOMAIN v : (v[x][1] = IOEnv.PROP) =>
       PrintT("@@BAD|" \o ToString(jx) \o "|" \o v[x][1] \o "|" \o v[x][2] \o "|" \o v[x][3])
=============================================================================
