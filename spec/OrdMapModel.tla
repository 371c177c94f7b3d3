---------------------------- MODULE OrdMapModel -----------------------------
(* OrdMap's sorted sequences are mathematical maps: every history over a few *)
(* keys and values keeps the sequence equal to a function, and every result  *)
(* equal to the function's.                                                  *)
EXTENDS OrdMap

CONSTANTS Keys, Values
VARIABLES s, f
vars == <<s, f>>

Init == s = <<>> /\ f = <<>>
PutBoth == \E k \in Keys, v \in Values :
    s' = MapPut(s, k, v) /\ f' = (k :> v) @@ f
DelBoth == \E k \in Keys :
    /\ s' = MapRemove(s, k)
    /\ f' = [x \in DOMAIN f \ {k} |-> f[x]]
Next == PutBoth \/ DelBoth
Spec == Init /\ [][Next]_vars
Same ==
    /\ StrictlyIncreasing(s)
    /\ {s[i] : i \in DOMAIN s} = {<<k, f[k]>> : k \in DOMAIN f}
    /\ \A k \in Keys :
         /\ MapHas(s, k) = (k \in DOMAIN f)
         /\ MapRemoved(s, k) = (IF k \in DOMAIN f THEN <<k, f[k]>> ELSE <<>>)
=============================================================================
