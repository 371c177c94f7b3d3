----------------------------- MODULE BTreeAlgMC -----------------------------
(***************************************************************************)
(* Every shape of at most N elements that the algorithms reach, and every  *)
(* operation on it at every place: the structure they leave is well        *)
(* formed, every summary is right, and the elements are those expected, in *)
(* order.  Elements are 2 units long at the start of every step: what the  *)
(* algorithms do depends on lengths only through "inside" or "at a border".*)
(***************************************************************************)
EXTENDS BTreeAlg
G == INSTANCE GBTree

CONSTANTS N,        \* most elements
          Bulk,     \* sizes of batches
          Sample,   \* of the ranges, one in so many is looked at (1: all)
          Salt,     \* which ones
          Ops       \* the operations; those of Basic are always there

VARIABLES sh,   \* the shape
          bad,  \* what went wrong in the last step
          last  \* the last step
vars == <<sh, bad, last>>

Init == sh = EmptyShape /\ bad = {} /\ last = <<"init">>

Size == SumOf(sh[1])
If(b, c) == IF b THEN {} ELSE {c}
Names(T, k) == From(T.lx, T.lx + k - 1)
Neg(s) == [i \in DOMAIN s |-> -s[i]]

(* the abstract tree that GBTree speaks about *)
Abstract(T, ls, s) ==
    [lf |-> ls, lv |-> [k \in DOMAIN s |-> [i \in DOMAIN s[k] |-> <<s[k][i], 0, 0>>]],
     nl |-> Cardinality(DOMAIN T.nd) + Cardinality(DOMAIN T.lf)]

(* T1: the tree after; units, names: what its elements must be (name 0: new) *)
Check(T1, s1, units, names, slack) ==
    LET ls == TLCEval(Leaves(T1))
        us == TLCEval([i \in DOMAIN ls |-> T1.lf[ls[i]].n])
    IN If(OnceReachable(T1), "reach") \cup If(LinksRight(T1), "links")
       \cup If(SummariesRight(T1), "sums") \cup If(RoomLeft(T1), "room")
       \cup If(SameDepth(T1), "depth") \cup If(Collapsed(T1), "collapsed")
       \cup If(us = units, "content")
       \cup If(\A i \in DOMAIN names : names[i] = 0 \/ names[i] = ls[i], "names")
       \cup If(slack < 0 \/ G!Refilled(Abstract(T1, <<>>, sh), Abstract(T1, <<>>, s1), M, slack), "refill")
       \cup If(G!SpaceBounded(Abstract(T1, ls, s1), M), "space")

Do(T1, units, names, slack, what) ==
    \E t \in {T1} : \E s1 \in {ShapeOf(t)} :
        /\ bad' = Check(t, s1, units, names, slack)
        /\ sh' = s1
        /\ last' = what

Two(k) == [i \in 1..k |-> 2]
Own == [i \in 1..Size |-> -i]
New(T, k) == Neg(Names(T, k))

(* the units of the elements when new ones are put at offset o of element i *)
UnitsAt(i, o, new) ==
    Two(i - 1) \o (IF o = 0 THEN new \o <<2>> ELSE IF o = 2 THEN <<2>> \o new ELSE <<1>> \o new \o <<1>>)
    \o Two(Size - i)
NamesAt(i, o, k) ==
    SubSeq(Own, 1, i - 1)
    \o (IF o = 0 THEN [q \in 1..k |-> 0] \o <<-i>>
        ELSE IF o = 2 THEN <<-i>> \o [q \in 1..k |-> 0] ELSE <<-i>> \o [q \in 1..k + 1 |-> 0])
    \o SubSeq(Own, i + 1, Size)

PushOne(T) == Size < N /\ Do(Push(T, 2), Two(Size + 1), Own \o New(T, 1), -1, <<"push">>)
PrependOne(T) == Size < N /\ Do(Prepend(T, 2), Two(Size + 1), New(T, 1) \o Own, -1, <<"prepend">>)
InsertOne(T) ==
    \E i \in 1..Size, o \in 0..2 :
       /\ Size + (IF o = 1 THEN 2 ELSE 1) <= N
       /\ Do(InsertByPath(T, -i, o, 2), UnitsAt(i, o, <<2>>), NamesAt(i, o, 1), -1, <<"ins", i, o>>)
InsertSeveral(T) ==
    \E i \in 1..Size, o \in 0..2, k \in Bulk :
       /\ k >= 2 /\ Size + k + (IF o = 1 THEN 1 ELSE 0) <= N
       /\ Do(InsertMany(T, -i, o, Two(k)), UnitsAt(i, o, Two(k)), NamesAt(i, o, k), -1, <<"insm", i, o, k>>)
BulkOf(T, k) == Do(BulkInto(T, Two(k)), Two(k), Neg(From(1, k)), -1, <<"bulk", k>>)
BulkBuild(T) == Size = 0 /\ \E k \in 2..N : BulkOf(T, k)
RemoveOne(T) ==
    \E i \in 1..Size :
       Do(RemoveLeaf(T, -i), Two(Size - 1), RemoveSlot(Own, i), 0, <<"rm", i>>)
LeafGone(T) ==
    \E i \in 1..Size :
       Do(UpdateLeafGone(T, -i), Two(Size - 1), RemoveSlot(Own, i), 0, <<"uplgone", i>>)
LeafAdd(T) ==
    \E i \in 1..Size, k \in 1..2 :
       /\ Size + k <= N
       /\ (M \div 2) + k < M       \* so that one split makes room (false only for M=4, k=2)
       /\ Do(UpdateLeafAdd(T, -i, 1, [q \in 1..k |-> 1]),
             Two(i - 1) \o [q \in 1..k + 1 |-> 1] \o Two(Size - i),
             SubSeq(Own, 1, i) \o New(T, k) \o SubSeq(Own, i + 1, Size), -1, <<"upladd", i, k>>)
BySearchGone(T) ==
    \E i \in 1..Size :
       /\ DIFF
       /\ Do(SearchGone(T, -i), Two(Size - 1), RemoveSlot(Own, i), Len(sh), <<"upsgone", i>>)
BySearchAdd(T) ==
    \E i \in 1..Size :
       /\ DIFF /\ Size < N
       /\ Do(SearchAdd(T, -i, 1, 2), Two(i - 1) \o <<1, 2>> \o Two(Size - i),
             SubSeq(Own, 1, i) \o New(T, 1) \o SubSeq(Own, i + 1, Size), -1, <<"upsadd", i>>)
(* ranges between two cursors *)
Kept(i, o, j, q) ==     \* the units outside the range
    Two(i - 1) \o (IF o = 0 THEN <<>> ELSE <<o>>)
    \o (IF i = j /\ o = q /\ 0 < o /\ o < 2 THEN <<2 - o>>
        ELSE IF q = 2 THEN <<>> ELSE <<2 - q>>)
    \o Two(Size - j)
Chosen(k) == Sample = 1 \/ (k + Salt) % Sample = 0
Digest == FoldLeft(LAMBDA x, q : (x * 7 + q) % 997, 0, sh[1])
Spans ==
    LET d == TLCEval(Digest)
    IN {r \in (1..Size) \X (0..2) \X (1..Size) \X (0..2) :
        /\ r[1] < r[3] \/ (r[1] = r[3] /\ r[2] < r[4])
        /\ Chosen(d + 101 * r[1] + 37 * r[2] + 211 * r[3] + 59 * r[4])}
DrainRange(T) ==
    /\ Size + 2 <= N + 1
    /\ \E r \in Spans :
          Do(Drain(T, -r[1], r[2], -r[3], r[4]), Kept(r[1], r[2], r[3], r[4]), <<>>, Len(sh),
             <<"drain", r[1], r[2], r[3], r[4]>>)
(* what an update may do to a piece of n units: nothing, cut it to one unit,
   empty it, empty every second one *)
NewLen(k, i, n) ==
    CASE k = 1 -> n [] k = 4 -> 1 [] k = 5 -> 0 [] k = 6 -> IF i % 2 = 1 THEN 0 ELSE n
RangePieces(i, o, j, q) ==
    IF i = j THEN IF o < q THEN <<q - o>> ELSE <<>>
    ELSE (IF o < 2 THEN <<2 - o>> ELSE <<>>) \o Two(j - i - 1) \o (IF q > 0 THEN <<q>> ELSE <<>>)
RangeUpdated(k, i, o, j, q) ==
    LET ps == TLCEval(RangePieces(i, o, j, q))
        new == TLCEval([c \in DOMAIN ps |-> NewLen(k, c, ps[c])])
    IN Two(i - 1) \o (IF o = 0 THEN <<>> ELSE <<o>>)
       \o SelectSeq(new, LAMBDA n : n > 0)
       \o (IF q = 2 THEN <<>> ELSE <<2 - q>>) \o Two(Size - j)
UpdateOver(T) ==
    /\ Size + 2 <= N + 1
    /\ \E r \in Spans, k \in {1, 4, 5, 6} :
          Do(UpdateRange(T, -r[1], r[2], -r[3], r[4], LAMBDA i, n : NewLen(k, i, n)),
             RangeUpdated(k, r[1], r[2], r[3], r[4]), <<>>, Len(sh),
             <<"upd", k, r[1], r[2], r[3], r[4]>>)
(* sub-ranges of one element (cut into k + 1 parts), or of two *)
Parts(k) == [q \in 1..k |-> 1] \o <<4 - k>>
PartsOfOne(T) ==    \* of elements 4 units long
    \E i \in 1..Size, k \in 1..3 :
       /\ Size + k <= N
       /\ Do(UpdateParts(T, <<<<-i, Parts(k)>>>>),
             FlattenSeq([j \in 1..Size |-> IF j = i THEN Parts(k) ELSE <<4>>]), SubSeq(Own, 1, i), -1,
             <<"uplr", i, k, 0, 0>>)
PartsOfTwo(T) ==
    \E i, j \in 1..Size, k, q \in 1..2 :
       /\ i # j /\ Size + k + q <= N /\ Chosen(101 * i + 37 * j + 5 * k + q)
       /\ Do(UpdateParts(T, <<<<-i, Parts(k)>>, <<-j, Parts(q)>>>>),
             FlattenSeq([c \in 1..Size |-> IF c = i THEN Parts(k) ELSE IF c = j THEN Parts(q) ELSE <<4>>]),
             SubSeq(Own, 1, IF i < j THEN i ELSE j), -1, <<"uplr", i, k, j, q>>)

(* what builds the shapes *)
Basic(T) == InsertOne(T) \/ RemoveOne(T) \/ PushOne(T) \/ BulkBuild(T)
Operations(T, T4) ==
    \/ "push" \in Ops /\ PushOne(T)
    \/ "prepend" \in Ops /\ PrependOne(T)
    \/ "ins" \in Ops /\ InsertOne(T)
    \/ "insm" \in Ops /\ InsertSeveral(T)
    \/ "bulk" \in Ops /\ BulkBuild(T)
    \/ "rm" \in Ops /\ RemoveOne(T)
    \/ "uplgone" \in Ops /\ LeafGone(T)
    \/ "upladd" \in Ops /\ LeafAdd(T)
    \/ "upsgone" \in Ops /\ BySearchGone(T)
    \/ "upsadd" \in Ops /\ BySearchAdd(T)
    \/ "drain" \in Ops /\ DrainRange(T)
    \/ "upd" \in Ops /\ UpdateOver(T)
    \/ "uplr" \in Ops /\ (PartsOfOne(T4) \/ PartsOfTwo(T4))
Next ==
    /\ bad = {}
    /\ \E T \in {TreeOf(sh, 2)}, T4 \in {TreeOf(sh, 4)} : Basic(T) \/ Operations(T, T4)
Spec == Init /\ [][Next]_vars
Good == bad = {}
Navigation == \A T \in {TreeOf(sh, 2)} : NavigationRight(T)
Shape == <<sh, bad>>
(* every transition, as a case for the real code *)
Emit == PrintT(<<"@", sh, last', sh'>>)
=============================================================================
