-------------------------- MODULE CollectionDefault --------------------------
EXTENDS Lib
VARIABLES n, sc
Init == n = 0 /\ sc = [id |-> 0, op |-> "none"]
Next == n < NScn /\ n' = n + 1 /\ sc' = [id |-> Base + n', op |-> "default", tag |-> "", file |-> n' - 1] /\ Emit(sc')
Law == TRUE
=============================================================================
