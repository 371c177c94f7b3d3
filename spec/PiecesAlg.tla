----------------------------- MODULE PiecesAlg ------------------------------
(***************************************************************************)
(* The algorithms of src/rle.rs (the provided methods of Sliceable) and of *)
(* src/generic_impl/gap_buffer.rs: every case up to a size, checked        *)
(* against Pieces, and handed on as cases for the real code.               *)
(*                                                                         *)
(* A gap buffer is [b : its Cap cells, gs : cells before the gap, gl :     *)
(* cells in the gap].                                                      *)
(***************************************************************************)
EXTENDS Pieces

CONSTANTS Cap,      \* MAX_STRING_SIZE
          Sizes,    \* lengths of the elements
          Gaps      \* TRUE: the gap buffer, FALSE: the other type

Stale == 0          \* what the gap is filled with

(* --------------------------- the gap buffer ---------------------------- *)
NewGap == [b |-> [i \in 1..Cap |-> Stale], gs |-> 0, gl |-> Cap]
GapLen(g) == Cap - g.gl
AsBytes(g) == <<SubSeq(g.b, 1, g.gs), SubSeq(g.b, g.gs + g.gl + 1, Cap)>>
Bytes(g) == AsBytes(g)[1] \o AsBytes(g)[2]
(* cells a + 1 .. e go to to + 1 .. *)
CopyWithin(b, a, e, to) ==
    [i \in DOMAIN b |-> IF i > to /\ i <= to + (e - a) THEN b[a + i - to] ELSE b[i]]
ShiftAt(g, i) ==
    IF i = g.gs THEN g
    ELSE IF i < g.gs
    THEN LET mv == g.gs - i
         IN [g EXCEPT !.b = CopyWithin(g.b, i, g.gs, g.gs + g.gl - mv), !.gs = i]
    ELSE LET mv == i - g.gs
             ge == g.gs + g.gl
         IN [g EXCEPT !.b = CopyWithin(g.b, ge, Min2(Cap, ge + mv), g.gs), !.gs = i]
Write(b, at, new) ==
    [i \in DOMAIN b |-> IF i > at /\ i <= at + Len(new) THEN new[i - at] ELSE b[i]]
(* [ok, g] *)
InsertBytes(g, i, new) ==
    IF g.gl < Len(new) THEN [ok |-> FALSE, g |-> g]
    ELSE LET s == ShiftAt(g, i)
         IN [ok |-> TRUE, g |-> [b |-> Write(s.b, i, new), gs |-> s.gs + Len(new), gl |-> s.gl - Len(new)]]
InsertPair(g, i, l, r) ==
    IF g.gl < Len(l) + Len(r) THEN [ok |-> FALSE, g |-> g]
    ELSE LET s == ShiftAt(g, i)
         IN [ok |-> TRUE, g |-> [b |-> Write(Write(s.b, i, l), i + Len(l), r),
                                 gs |-> s.gs + Len(l) + Len(r), gl |-> s.gl - Len(l) - Len(r)]]
PushBytes(g, new) == InsertBytes(g, GapLen(g), new)
DeleteBytes(g, lo, hi) ==
    LET e == Min2(UpperEnd(hi, GapLen(g)), GapLen(g))
        s == Min2(Min2(LowerEnd(lo), GapLen(g)), e)
    IN IF s = e THEN g
       ELSE LET x == ShiftAt(g, e) IN [x EXCEPT !.gs = s, !.gl = x.gl + (e - s)]
(* _slice *)
SliceGap(g, a, e) ==
    LET l == AsBytes(g)[1]
        r == AsBytes(g)[2]
        x == IF a < Len(l) THEN PushBytes(NewGap, SubSeq(l, a + 1, Min2(e, Len(l)))).g ELSE NewGap
        sub(p, q) == IF p < q THEN 0 ELSE p - q
    IN IF e > Len(l)
       THEN PushBytes(x, SubSeq(r, sub(a, Len(l)) + 1, sub(e, Len(l)))).g
       ELSE x
SliceGapIn(g, lo, hi) ==
    LET e == UpperEnd(hi, GapLen(g))
    IN DeleteBytes(DeleteBytes(g, <<1, e>>, <<0, 0>>), <<0, 0>>, <<2, LowerEnd(lo)>>)
(* <<left, right>> *)
SplitGap(g, pos) ==
    LET s == ShiftAt(g, pos)
        r == PushBytes(NewGap, AsBytes(s)[2]).g
    IN <<[s EXCEPT !.gl = Cap - pos], r>>
MergeRight(g, o) == InsertPair(g, GapLen(g), AsBytes(o)[1], AsBytes(o)[2]).g
MergeLeft(g, o) == InsertPair(g, 0, AsBytes(o)[1], AsBytes(o)[2]).g
CanMergeGap(g, o) == GapLen(g) + GapLen(o) <= Cap
TryInsertGap(g, pos, o) ==
    IF GapLen(g) + GapLen(o) > Cap THEN [ok |-> FALSE, g |-> g]
    ELSE InsertPair(g, pos, AsBytes(o)[1], AsBytes(o)[2])
(* what the harness does to the part it is given: replaces all of it *)
GapOf(s, at) == ShiftAt(PushBytes(NewGap, s).g, at)
RewriteGap(g, w) ==
    InsertBytes(DeleteBytes(g, <<1, 0>>, <<2, GapLen(g)>>), 0, Updated(Bytes(g), w)).g

(* ------------------ update_with_split, for any element ----------------- *)
(* pieces <<self, first returned, second returned>> *)
UpdateWithSplit(x, lo, hi, len, Split(_, _), Change(_)) ==
    LET a == LowerEnd(lo)
        e == UpperEnd(hi, len)
    IN IF a >= e THEN <<x>>
       ELSE IF a = 0 /\ e = len THEN <<Change(x)>>
       ELSE IF a = 0 THEN LET p == Split(x, e) IN <<Change(p[1]), p[2]>>
       ELSE IF e = len THEN LET p == Split(x, a) IN <<p[1], Change(p[2])>>
       ELSE LET p == Split(x, e)
                q == Split(p[1], a)
            IN <<q[1], Change(q[2]), p[2]>>

(* an element that provides only _slice *)
DefSlice(s, lo, hi) == SubSeq(s, LowerEnd(lo) + 1, UpperEnd(hi, Len(s)))
DefSplit(s, pos) == <<DefSlice(s, <<0, 0>>, <<2, pos>>), DefSlice(s, <<1, pos>>, <<0, 0>>)>>

(* ------------------------------ the cases ------------------------------ *)
VARIABLES n,    \* length
          at,   \* where the gap is
          step  \* the case made from there
vars == <<n, at, step>>

LowerBounds(k) == {<<0, 0>>} \cup {<<1, x>> : x \in 0..k} \cup {<<2, x>> : x \in 0..k}
UpperBounds(k) == LowerBounds(k)

Init ==
    /\ n \in (IF Gaps THEN Sizes \cap 0..Cap ELSE Sizes)
    /\ at \in (IF Gaps THEN 0..n ELSE {0})
    /\ step = <<>>

Items == [i \in 1..n |-> i]
Gap == TLCEval(GapOf(Items, at))
Contents(gs) == [q \in DOMAIN gs |-> Bytes(gs[q])]

(* each case: op, bounds, what comes out (left, then pieces), what must *)
Helpers ==
    \/ \E lo \in LowerBounds(n), hi \in UpperBounds(n) :
         /\ Valid(lo, hi, Items)
         /\ step' = [op |-> 0, lo |-> lo, hi |-> hi, w |-> 0,
                     got |-> <<Items, IF Gaps THEN Bytes(SliceGap(Gap, LowerEnd(lo), UpperEnd(hi, n)))
                                      ELSE DefSlice(Items, lo, hi)>>,
                     want |-> <<Items, Slice(Items, lo, hi)>>]
    \/ \E lo \in LowerBounds(n), hi \in UpperBounds(n) :
         /\ Valid(lo, hi, Items)
         /\ step' = [op |-> 1, lo |-> lo, hi |-> hi, w |-> 0,
                     got |-> <<IF Gaps THEN Bytes(SliceGapIn(Gap, lo, hi)) ELSE DefSlice(Items, lo, hi)>>,
                     want |-> <<Slice(Items, lo, hi)>>]
    \/ \E pos \in 0..n :
         step' = [op |-> 2, lo |-> <<1, pos>>, hi |-> <<0, 0>>, w |-> 0,
                  got |-> IF Gaps THEN Contents(SplitGap(Gap, pos)) ELSE DefSplit(Items, pos),
                  want |-> <<Before(Items, pos), After(Items, pos)>>]
    \/ \E lo \in LowerBounds(n), hi \in UpperBounds(n), w \in 0..2 :
         /\ Hi(hi, Items) <= n /\ Lo(lo) <= n
         /\ ~(w = 1 /\ Gaps /\ n = Cap)
         /\ step' = [op |-> 3, lo |-> lo, hi |-> hi, w |-> w,
                     got |-> IF Gaps
                             THEN Contents(UpdateWithSplit(Gap, lo, hi, n, SplitGap, LAMBDA g : RewriteGap(g, w)))
                             ELSE UpdateWithSplit(Items, lo, hi, n, DefSplit, LAMBDA s : Updated(s, w)),
                     want |-> UpdatePieces(Items, lo, hi, w)]
New(k) == [i \in 1..k |-> 20 + i]
(* the buffer's own operations; w: how many bytes *)
Buffer ==
    /\ Gaps
    /\ \/ \E i \in 0..n, k \in 0..Cap :
            step' = [op |-> 10, lo |-> <<1, i>>, hi |-> <<0, 0>>, w |-> k,
                     got |-> <<Bytes(InsertBytes(Gap, i, New(k)).g)>>,
                     want |-> <<GapInsert(Items, i, New(k), Cap)>>]
       \/ \E i \in 0..n, k \in 0..Cap : \E c \in {0, k \div 2, k} :
            step' = [op |-> 11, lo |-> <<1, i>>, hi |-> <<1, c>>, w |-> k,
                     got |-> <<Bytes(InsertPair(Gap, i, Before(New(k), c), After(New(k), c)).g),
                               Bytes(TryInsertGap(Gap, i, GapOf(New(k), c)).g)>>,
                     want |-> <<GapInsert(Items, i, New(k), Cap), GapInsert(Items, i, New(k), Cap)>>]
       \/ \E lo \in LowerBounds(n + 1), hi \in UpperBounds(n + 1) :
            step' = [op |-> 12, lo |-> lo, hi |-> hi, w |-> 0,
                     got |-> <<Bytes(DeleteBytes(Gap, lo, hi))>>,
                     want |-> <<DeleteRange(Items, lo, hi)>>]
       \/ \E i \in 0..n :
            step' = [op |-> 13, lo |-> <<1, i>>, hi |-> <<0, 0>>, w |-> 0,
                     got |-> <<Bytes(ShiftAt(Gap, i))>>, want |-> <<Items>>]
       \/ \E k \in 0..Cap : \E c \in {0, k \div 2, k} :
            /\ CanMergeGap(Gap, GapOf(New(k), c))
            /\ step' = [op |-> 14, lo |-> <<1, c>>, hi |-> <<0, 0>>, w |-> k,
                        got |-> <<Bytes(MergeRight(Gap, GapOf(New(k), c))), Bytes(MergeLeft(Gap, GapOf(New(k), c)))>>,
                        want |-> <<Items \o New(k), New(k) \o Items>>]

Next == step = <<>> /\ (Helpers \/ Buffer) /\ UNCHANGED <<n, at>>
Spec == Init /\ [][Next]_vars
Good == step # <<>> => step.got = step.want
(* the gap's place and size stay within the buffer *)
Sound == Gaps => Bytes(Gap) = Items /\ Gap.gs + Gap.gl <= Cap
Emit ==
    step'.op > 3 \/
    PrintT(<<"@", IF Gaps THEN 1 ELSE 0, step'.op, n, IF Gaps THEN at ELSE -1, step'.lo[1], step'.lo[2],
             step'.hi[1], step'.hi[2], step'.w>>)
=============================================================================
