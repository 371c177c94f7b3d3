------------------------------ MODULE RopeAlg -------------------------------
(***************************************************************************)
(* Rope: a tree of chunks of at most S bytes, and a cursor that remembers  *)
(* the chunk edited last.  One operator per function of                    *)
(* src/generic_impl/rope.rs, on the balancing algorithms of BTreeAlg; this *)
(* module adds the merging of elements, which BTreeAlg leaves out.         *)
(*                                                                         *)
(* What is checked: an edit is made where it was asked for, of the bytes   *)
(* it was asked for; the remembered place is right whenever it is used;    *)
(* the tree stays well formed.                                             *)
(***************************************************************************)
EXTENDS BTreeAlg

CONSTANTS S,        \* MAX_STRING_SIZE
          Most,     \* greatest length of the text
          Inserts   \* lengths of inserted texts

CanMerge(a, b) == a + b <= S

(* --------------------- elements that merge (lib.rs) -------------------- *)
(* insert_by_path: [t, a, o], the cursor returned *)
InsertElem(T, a, o, n) ==
    IF CanMerge(T.lf[a].n, n)
    THEN [t |-> UpdateCache([T EXCEPT !.lf[a].n = @ + n], a, TRUE, n), a |-> a, o |-> o]
    ELSE LET T1 == InsertByPath(T, a, o, n) IN [t |-> T1, a |-> -(T1.lx - 1), o |-> 0]
PushElem(T, n) ==
    LET l == IF IsEmpty(T) THEN 0 ELSE LastLeafOf(T, T.rt)
    IN IF l # 0 /\ CanMerge(T.lf[l].n, n)
       THEN UpdateCache([T EXCEPT !.lf[l].n = @ + n], l, TRUE, n)
       ELSE Push(T, n)
(* merge_adj *)
MergeAdj(ns) ==
    FoldLeft(LAMBDA acc, n : IF acc # <<>> /\ CanMerge(Last(acc), n)
                             THEN Append(Front(acc), Last(acc) + n) ELSE Append(acc, n), <<>>, ns)
RECURSIVE InsertBack(_, _, _, _)
InsertBack(T, a, o, ns) ==
    IF ns = <<>> THEN T
    ELSE LET x == InsertElem(T, a, o, Last(ns)) IN InsertBack(x.t, x.a, x.o, Front(ns))
RECURSIVE Absorb(_, _, _)       \* into the left neighbour: [t, rest]
Absorb(T, l, ns) ==
    IF ns # <<>> /\ CanMerge(T.lf[l].n, ns[1])
    THEN Absorb([T EXCEPT !.lf[l].n = @ + ns[1]], l, Tail(ns))
    ELSE [t |-> T, rest |-> ns]
InsertBatch(T, a, o, data) ==
    LET ns == IF Len(data) < 2 THEN data ELSE MergeAdj(data)
    IN IF ns = <<>> THEN T
       ELSE IF Len(ns) = 1 THEN InsertElem(T, a, o, ns[1]).t
       ELSE LET x == SplitLeaf(T, a, o)
                y == IF x.left = 0 THEN [t |-> x.t, rest |-> ns] ELSE Absorb(x.t, x.left, ns)
                T1 == IF x.left = 0 THEN y.t ELSE UpdateCache(y.t, x.left, DIFF, NoDiff)
            IN IF x.pos # 0 THEN InsertBack(T1, x.pos, 0, y.rest)
               ELSE LET e == LastLeafOf(T1, T1.rt) IN InsertBack(T1, e, T1.lf[e].n, y.rest)
(* update_leaf that leaves n units and returns one more piece of m: [t, ok] *)
UpdateLeaf(T, a, n0, m0) ==
    LET n == IF n0 = 0 THEN m0 ELSE n0
        m == IF n0 = 0 THEN 0 ELSE m0
        p == T.lf[a].p
        s == SlotOf(T, p, a)
        next == IF s < Len(Ch(T, p)) THEN Ch(T, p)[s + 1].a ELSE 0
    IN IF n = 0 THEN [t |-> UpdateLeafGone(T, a), ok |-> FALSE]
       ELSE IF m = 0 THEN [t |-> UpdateCache([T EXCEPT !.lf[a].n = n], a, DIFF, NoDiff), ok |-> TRUE]
       ELSE IF next # 0 /\ CanMerge(m, T.lf[next].n)
       THEN LET T1 == UpdateCache([T EXCEPT !.lf[a].n = n], a, DIFF, NoDiff)
            IN [t |-> UpdateCache([T1 EXCEPT !.lf[next].n = @ + m], next, DIFF, NoDiff), ok |-> TRUE]
       ELSE [t |-> UpdateLeafAdd(T, a, n, <<m>>), ok |-> TRUE]
(* update_leaf_by_search that shortens the element by d *)
SearchLess(T, a, d) ==
    IF T.lf[a].n = d THEN [t |-> SearchGone(T, a), ok |-> FALSE]
    ELSE [t |-> UpdateCache([T EXCEPT !.lf[a].n = @ - d], a, TRUE, -d), ok |-> TRUE]

(* ------------------------------ the rope ------------------------------- *)
NoCursor == [a |-> 0, p |-> 0]
At(a, p) == [a |-> a, p |-> p]
Start(T, a) ==      \* where an element starts
    LET ls == Leaves(T)
        us == Running([i \in DOMAIN ls |-> T.lf[ls[i]].n])
    IN us[CHOOSE i \in DOMAIN ls : ls[i] = a]
Chunked(k) == [i \in 1..((k + S - 1) \div S) |-> Min2(S, k - (i - 1) * S)]

(* The results are [t, c : cursor, from, to : what was changed, in places of
   the text before] *)
InsertSlow(T, i, k) ==
    LET q == LookupAlg(T, i)
        ls == Leaves(T)
        p == T.lf[q.a].p
        s == SlotOf(T, p, q.a)
        c == IF q.o = 0
             THEN IF s = 1 \/ p = T.rt THEN NoCursor
                  ELSE At(Ch(T, p)[s - 1].a, i - Ch(T, p)[s - 1].c)
             ELSE At(q.a, i - q.o)
    IN [t |-> InsertBatch(T, q.a, q.o, Chunked(k)), c |-> c,
        from |-> Start(T, q.a) + q.o, to |-> Start(T, q.a) + q.o]
RopeInsert(T, c, i, k) ==
    IF T.rc = 0
    THEN [t |-> FoldLeft(LAMBDA t, n : PushElem(t, n), T, Chunked(k)), c |-> c, from |-> i, to |-> i]
    ELSE IF c.a # 0 /\ c.p <= i /\ i <= c.p + T.lf[c.a].n
    THEN LET n == T.lf[c.a].n
             o == i - c.p
             at == Start(T, c.a) + o
             room == n + k < S
             left == o + k < S
             ok == room \/ left \/ (n - o) + k <= S
             x == IF room THEN UpdateLeaf(T, c.a, n + k, 0)
                  ELSE IF left THEN UpdateLeaf(T, c.a, o + k, n - o)
                  ELSE UpdateLeaf(T, c.a, o, (n - o) + (IF ok THEN k ELSE 0))
             c1 == IF x.ok THEN c ELSE NoCursor
         IN IF ok THEN [t |-> x.t, c |-> c1, from |-> at, to |-> at]
            ELSE InsertSlow(x.t, i, k)
    ELSE InsertSlow(T, i, k)
RopeDelete(T, c, a, b) ==       \* a < b
    LET q == LookupAlg(T, a)
        e == LookupAlg(T, b)
        qs == Start(T, q.a) + q.o
        es == Start(T, e.a) + e.o
    IN IF c.a # 0 /\ c.p <= a /\ b <= c.p + T.lf[c.a].n
       THEN LET x == UpdateLeaf(T, c.a, T.lf[c.a].n - (b - a), 0)
                st == Start(T, c.a)
            IN [t |-> x.t, c |-> IF x.ok THEN c ELSE NoCursor,
                from |-> st + (a - c.p), to |-> st + (b - c.p)]
       ELSE IF b - a = 1
       THEN LET x == SearchLess(T, q.a, 1)
            IN [t |-> x.t, c |-> IF x.ok THEN At(q.a, a - q.o) ELSE NoCursor, from |-> qs, to |-> qs + 1]
       ELSE IF q.a = e.a
       THEN [t |-> IF q.o = 0 /\ e.o = T.lf[q.a].n THEN RemoveLeaf(T, q.a)
                   ELSE UpdateCache([T EXCEPT !.lf[q.a].n = @ - (b - a)], q.a, TRUE, a - b),
             c |-> NoCursor, from |-> qs, to |-> es]
       ELSE [t |-> Drain(T, q.a, q.o, e.a, e.o), c |-> NoCursor, from |-> qs, to |-> es]

(* ------------------------------- the model ----------------------------- *)
VARIABLES sh,   \* the shape
          ls,   \* the lengths of the chunks
          cur,  \* which chunk the cursor is at (0: none)
          bad, last, hist
vars == <<sh, ls, cur, bad, last, hist>>

Init == sh = EmptyShape /\ ls = <<>> /\ cur = 0 /\ bad = {} /\ last = <<2, 0, 0>> /\ hist = <<>>

Tree ==
    LET T0 == TreeOf(sh, 1)
        T1 == [T0 EXCEPT !.lf = [a \in DOMAIN T0.lf |-> [T0.lf[a] EXCEPT !.n = ls[-a]]]]
        \* every summary
        T2 == [T1 EXCEPT !.nd = [x \in DOMAIN T1.nd |-> [T1.nd[x] EXCEPT !.ch =
                [i \in DOMAIN T1.nd[x].ch |-> Kid(T1.nd[x].ch[i].a, UnitsBelow(T1, T1.nd[x].ch[i].a))]]]]
    IN [T2 EXCEPT !.rc = SumOf(ls)]
Cursor == IF cur = 0 THEN NoCursor ELSE At(-cur, Running(ls)[cur])
If(b, c) == IF b THEN {} ELSE {c}

Do(r, from, to, len, what) ==
    \E x \in {r} : \E ll \in {Leaves(r.t)} :
        LET T1 == x.t
            at == {i \in DOMAIN ll : ll[i] = x.c.a}
        IN /\ bad' = If(OnceReachable(T1), "reach") \cup If(LinksRight(T1), "links")
                     \cup If(SummariesRight(T1), "sums") \cup If(RoomLeft(T1), "room")
                     \cup If(SameDepth(T1), "depth") \cup If(Collapsed(T1), "collapsed")
                     \cup If(T1.rc = len, "len")
                     \cup If(\A i \in DOMAIN ll : T1.lf[ll[i]].n \in 1..S, "chunk")
                     \cup If(x.from = from /\ x.to = to, "place")
                     \cup If(x.c.a = 0 \/ at # {}, "lost")
                     \cup If(at = {} \/ x.c.p = Start(T1, x.c.a), "cursor")
           /\ sh' = ShapeOf(T1)
           /\ ls' = [i \in DOMAIN ll |-> T1.lf[ll[i]].n]
           /\ cur' = IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
           /\ last' = what
Total == SumOf(ls)
InsertText(T, i, k) == Do(RopeInsert(T, Cursor, i, k), i, i, Total + k, <<0, i, k>>)
DeleteText(T, a, b) == Do(RopeDelete(T, Cursor, a, b), a, b, Total - (b - a), <<1, a, b>>)
ClearAll == sh' = EmptyShape /\ ls' = <<>> /\ cur' = 0 /\ bad' = {} /\ last' = <<2, 0, 0>>

(* every edit of every text of at most Most bytes *)
Next ==
    /\ bad = {} /\ UNCHANGED hist
    /\ \E T \in {Tree} :
         \/ \E k \in Inserts, i \in 0..Total : Total + k <= Most /\ InsertText(T, i, k)
         \/ \E a \in 0..Total : \E b \in a + 1..Total : DeleteText(T, a, b)
Spec == Init /\ [][Next]_vars
Good == bad = {}
Shape == <<sh, ls, cur, bad>>

(* random histories: edits near the last one are likely, and texts grow and
   shrink by turns *)
Pick(s) == RandomElement(s)
Near == Max2(0, Min2(Total, last[2]
                            + Pick({-S, -2, -1, -1, 0, 0, 1, 1, 2, 3, S})))
Border ==
    IF ls = <<>> THEN 0 ELSE Running(ls)[Pick(1..Len(ls) + 1)]
Place == LET w == Pick(1..10) IN IF w <= 5 THEN Near ELSE IF w <= 8 THEN Border ELSE Pick(0..Total)
RandomStep ==
    \E w \in {Pick(1..20)}, i \in {Place}, j \in {Place}, k \in {Pick(Inserts)}, T \in {Tree} :
        IF w = 20 /\ Len(hist) % 7 = 3 THEN ClearAll
        ELSE IF (w <= 9 \/ i = j \/ Total = 0) /\ Total + k <= Most THEN InsertText(T, i, k)
        ELSE IF Total = 0 THEN InsertText(T, 0, Min2(k, Most))
        ELSE IF w <= 14 THEN (IF i < Total THEN DeleteText(T, i, i + 1) ELSE DeleteText(T, i - 1, i))
        ELSE IF i = j THEN (IF i < Total THEN DeleteText(T, i, Min2(Total, i + S)) ELSE DeleteText(T, Max2(0, i - S), i))
        ELSE DeleteText(T, Min2(i, j), Max2(i, j))
RandomNext == bad = {} /\ RandomStep /\ hist' = Append(hist, last')
RandomSpec == Init /\ [][RandomNext]_vars
(* when a history is complete: printed *)
CONSTANT Depth
Emit == Len(hist) # Depth \/ PrintT(<<"@">> \o FlattenSeq(hist))
=============================================================================
