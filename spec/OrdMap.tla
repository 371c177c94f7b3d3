------------------------------- MODULE OrdMap -------------------------------
(***************************************************************************)
(* The specification of OrdTreeMap and OrdTreeSet (a set is a map whose    *)
(* values are all 0).  A map is its strictly increasing sequence of        *)
(* <<key, value>> pairs; OrdMapModel shows that this representation is a   *)
(* mathematical map under MapPut and MapRemove.                                  *)
(***************************************************************************)
EXTENDS GBTSeq

StrictlyIncreasing(s) == \A i \in 1..Len(s) - 1 : s[i][1] < s[i + 1][1]

(* how many pairs come before key k: binary search in a sorted sequence *)
RECURSIVE Below(_, _, _, _)
Below(s, k, lo, hi) ==      \* pairs up to lo are smaller, from hi + 1 on they are not
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF s[mid][1] < k THEN Below(s, k, mid, hi) ELSE Below(s, k, lo, mid - 1)
Rank(s, k) == Below(s, k, 0, Len(s))
MapHas(s, k) == LET r == Rank(s, k) IN r < Len(s) /\ s[r + 1][1] = k

MapPut(s, k, v) ==
    LET r == Rank(s, k)
    IN IF MapHas(s, k) THEN [s EXCEPT ![r + 1] = <<k, v>>]
       ELSE Splice(s, r, <<<<k, v>>>>)
MapRemove(s, k) ==
    LET r == Rank(s, k) IN IF MapHas(s, k) THEN Cut(s, r, r + 1) ELSE s
(* what a deletion returns *)
MapRemoved(s, k) == IF MapHas(s, k) THEN s[Rank(s, k) + 1] ELSE <<>>
=============================================================================
