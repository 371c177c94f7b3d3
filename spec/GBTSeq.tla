------------------------------- MODULE GBTSeq -------------------------------
(* Helpers on sequences used by all the specifications.                      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* the parts of a sequence that come before and after a gap: gap g lies
   between positions g and g + 1 *)
Before(s, g) == SubSeq(s, 1, g)
After(s, g)  == SubSeq(s, g + 1, Len(s))

(* s with the items of `new` spliced in at gap g *)
Splice(s, g, new) == Before(s, g) \o new \o After(s, g)

(* s without what lies between gaps a and b *)
Cut(s, a, b) == Before(s, a) \o After(s, b)

SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxOf(s) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, s)

(* the number of occurrences of x *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \/ a = b
       \/ \A x \in {a[i] : i \in DOMAIN a} : Count(a, x) = Count(b, x)

(* running totals: <<0, s1, s1 + s2, ...>> of length Len(s) + 1 *)
Running(s) ==
    FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x), <<0>>, s)

(* positions i with P(i), in order *)
FirstOr(lo, hi, P(_), default) ==
    LET S == {i \in lo..hi : P(i)}
    IN IF S = {} THEN default ELSE CHOOSE i \in S : \A j \in S : i <= j
LastOr(lo, hi, P(_), default) ==
    LET S == {i \in lo..hi : P(i)}
    IN IF S = {} THEN default ELSE CHOOSE i \in S : \A j \in S : i >= j
=============================================================================
