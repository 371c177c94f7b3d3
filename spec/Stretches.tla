----------------------------- MODULE Stretches ------------------------------
(***************************************************************************)
(* The same tree, specified for contents of millions of elements.          *)
(*                                                                         *)
(* Elements are numbered when they are created and have length one and a   *)
(* weight.  A content is a sequence of stretches <<lo, hi, w>>: the        *)
(* elements numbered lo, lo+1, ..., hi, all of weight w.                   *)
(***************************************************************************)
EXTENDS GBTSeq

Size(r) == r[2] - r[1] + 1
Total(c) == SumOf([i \in DOMAIN c |-> Size(c[i])])
WeightOf(c) == SumOf([i \in DOMAIN c |-> Size(c[i]) * c[i][3]])
Offsets(c) == Running([i \in DOMAIN c |-> Size(c[i])])

(* stretches that continue each other are one *)
Norm(c) ==
    FoldLeft(LAMBDA acc, r :
                IF acc # <<>> /\ acc[Len(acc)][2] + 1 = r[1] /\ acc[Len(acc)][3] = r[3]
                THEN [acc EXCEPT ![Len(acc)] = <<@[1], r[2], @[3]>>]
                ELSE Append(acc, r), <<>>, c)

(* the content between gaps a and b *)
Part(c, a, b) ==
    LET st == TLCEval(Offsets(c))
        cut == TLCEval([i \in DOMAIN c |->
                  LET x == Max2(a, st[i]) y == Min2(b, st[i + 1])
                  IN <<c[i][1] + (x - st[i]), c[i][1] + (y - st[i]) - 1, c[i][3]>>])
    IN SelectSeq(cut, LAMBDA r : r[1] <= r[2])
Put(c, g, new) == Norm(Part(c, 0, g) \o new \o Part(c, g, Total(c)))
Drop(c, a, b) == Norm(Part(c, 0, a) \o Part(c, b, Total(c)))
Heavier(c, a, b) ==
    LET mid == TLCEval(Part(c, a, b))
    IN Norm(Part(c, 0, a)
            \o [i \in DOMAIN mid |-> <<mid[i][1], mid[i][2], (mid[i][3] + 1) % 4>>]
            \o Part(c, b, Total(c)))
(* only the elements with some weight *)
Heavy(c) == SelectSeq(c, LAMBDA r : r[3] > 0)

(* the number of the element at a position; -1: none *)
At(c, p) ==
    IF p < 0 \/ p >= Total(c) THEN -1
    ELSE LET st == TLCEval(Offsets(c))
             i == CHOOSE j \in DOMAIN c : st[j] <= p /\ p < st[j + 1]
         IN c[i][1] + (p - st[i])
Has(c, n) == \E i \in DOMAIN c : c[i][1] <= n /\ n <= c[i][2]

(* ------------------------------- shape -------------------------------- *)
Fill(fan) == fan \div 2 - 1
(* as in GBTree: the fewest elements a tree must once have held to reach a height *)
RECURSIVE MinPeak(_, _)
MinPeak(fan, h) ==
    IF h = 1 THEN 0 ELSE IF h = 2 THEN fan - 1
    ELSE LET m == MinPeak(fan, h - 1) IN IF m > 100000000 THEN m ELSE Fill(fan) * m
(* every call may leave sparse nodes along the paths to its ends *)
SpaceFits(fan, h, nodes, n, calls) ==
    (nodes - n) * (Fill(fan) - 1) <= n + (2 * h + 2) * (Fill(fan) - 1) * (calls + 1)
=============================================================================
