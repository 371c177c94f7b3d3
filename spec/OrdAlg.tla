------------------------------- MODULE OrdAlg -------------------------------
(***************************************************************************)
(* OrdTreeMap (and OrdTreeSet, which is an OrdTreeMap to ()): the search   *)
(* for a key through the summaries, which are the least and greatest key   *)
(* below, and what an insertion or deletion does with its result.  The     *)
(* balancing is that of BTreeAlg, with recomputed summaries.               *)
(*                                                                         *)
(* A state is a shape; its keys are 2, 4, 6, ... in order, so that every   *)
(* odd number is an absent key.  Every shape of at most N pairs that these *)
(* operations reach is looked at, with every key.                          *)
(***************************************************************************)
EXTENDS BTreeAlg
O == INSTANCE OrdMap

CONSTANTS N

VARIABLES sh, bad, last
vars == <<sh, bad, last>>

Key(a) == 2 * (-a)      \* of an element, elements being numbered in order
RECURSIVE Least(_, _)
Least(T, a) == IF a < 0 THEN Key(a) ELSE Least(T, Ch(T, a)[1].a)
RECURSIVE Greatest(_, _)
Greatest(T, a) == IF a < 0 THEN Key(a) ELSE Greatest(T, Last(Ch(T, a)).a)

(* core::slice::binary_search_by over the children *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(T, ch, k, lo, hi) ==     \* between gaps lo and hi; [ok, i], i counts from 0
    IF lo >= hi THEN [ok |-> FALSE, i |-> lo]
    ELSE LET mid == (lo + hi) \div 2
             c == ch[mid + 1].a
         IN IF k < Least(T, c) THEN Bisect(T, ch, k, lo, mid)
            ELSE IF k > Greatest(T, c) THEN Bisect(T, ch, k, mid + 1, hi)
            ELSE [ok |-> TRUE, i |-> mid]
(* BTree::query: [a, o, f] *)
RECURSIVE Search(_, _, _, _)
Search(T, n, k, found) ==
    LET ch == Ch(T, n)
        r == Bisect(T, ch, k, 0, Len(ch))
        i == IF r.ok THEN r.i ELSE Min2(r.i, Len(ch) - 1)
        a == ch[i + 1].a
    IN IF a > 0 THEN Search(T, a, k, found /\ r.ok)
       ELSE [a |-> a, o |-> IF k > Key(a) THEN 1 ELSE 0, f |-> k = Key(a) /\ found /\ r.ok]
(* OrdTreeMap::insert of a new key, the tree being not empty.  The search
   has named a border, so no element is split. *)
PutAt(T, q) == InsertByPath(T, q.a, q.o, 1)

Init == sh = EmptyShape /\ bad = {} /\ last = <<"init">>
Size == SumOf(sh[1])
If(b, c) == IF b THEN {} ELSE {c}
Own == [i \in 1..Size |-> -i]

Do(T1, names, what) ==
    \E t \in {T1} : \E ls \in {Leaves(T1)} :
        /\ bad' = If(OnceReachable(t), "reach") \cup If(LinksRight(t), "links")
                  \cup If(SummariesRight(t), "sums") \cup If(RoomLeft(t), "room")
                  \cup If(SameDepth(t), "depth") \cup If(Collapsed(t), "collapsed")
                  \cup If(Len(ls) = Len(names) /\ \A i \in DOMAIN names : names[i] = 0 \/ names[i] = ls[i], "order")
        /\ sh' = ShapeOf(t)
        /\ last' = what
(* the map as the specification sees it *)
Map == [i \in 1..Size |-> <<2 * i, 0>>]
Place(k) == [i \in 1..Size + 1 |->
    LET r == O!Rank(Map, k) IN IF i <= r THEN -i ELSE IF i = r + 1 THEN 0 ELSE -(i - 1)]

Put(T) ==
    /\ Size < N
    /\ IF Size = 0 THEN Do(Push(T, 1), <<0>>, <<"put", 1>>)
       ELSE \E g \in 0..Size :
            LET k == 2 * g + 1
                q == Search(T, T.rt, k, TRUE)
            IN /\ Assert(~q.f, "an absent key is found")
               /\ Do(PutAt(T, q), Place(k), <<"put", k>>)
Replace(T) ==
    \E i \in 1..Size :
       LET q == Search(T, T.rt, 2 * i, TRUE)
       IN Do(T, IF q.f /\ q.a = -i THEN Own ELSE <<>>, <<"put", 2 * i>>)
Delete(T) ==
    \E i \in 1..Size :
       LET q == Search(T, T.rt, 2 * i, TRUE)
       IN Do(IF q.f THEN RemoveLeaf(T, q.a) ELSE T, RemoveSlot(Own, i), <<"del", 2 * i>>)
DeleteAbsent(T) ==
    \E g \in 0..Size :
       LET q == IF Size = 0 THEN [f |-> FALSE] ELSE Search(T, T.rt, 2 * g + 1, TRUE)
       IN Do(T, IF q.f THEN <<>> ELSE Own, <<"del", 2 * g + 1>>)
Next == bad = {} /\ \E T \in {TreeOf(sh, 1)} : Put(T) \/ Replace(T) \/ Delete(T) \/ DeleteAbsent(T)
Spec == Init /\ [][Next]_vars
Good == bad = {}
Shape == <<sh, bad>>
Emit == PrintT(<<"@", sh, last', sh'>>)
=============================================================================
