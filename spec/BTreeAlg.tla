------------------------------ MODULE BTreeAlg ------------------------------
(***************************************************************************)
(* The balancing algorithms of generic_btree: how nodes are split, merged, *)
(* refilled and collapsed, how parents, slots and summaries are kept, for  *)
(* every operation that changes the structure.  One operator per function  *)
(* of src/lib.rs and src/iter.rs; the names are theirs.                    *)
(*                                                                         *)
(* A node is [p : parent (0: none), s : slot in the parent (from 1),       *)
(* ch : children], a child [a : what (a node > 0, an element < 0),         *)
(* c : its summary].  A summary is a number of units.                      *)
(* A tree is [nd : nodes, lf : elements ([p : node, n : units]), rt : root,*)
(* rc : the root's summary, nx, lx : next unused names].                   *)
(***************************************************************************)
EXTENDS GBTSeq

CONSTANTS M,      \* MAX_CHILDREN_NUM
          DIFF    \* USE_DIFF: summaries are maintained by differences

Kid(a, c) == [a |-> a, c |-> c]
Ch(T, n) == T.nd[n].ch
Par(T, n) == IF n < 0 THEN T.lf[n].p ELSE T.nd[n].p
SetCh(T, n, ch) == [T EXCEPT !.nd[n].ch = ch]
SetCache(T, n, s, c) == [T EXCEPT !.nd[n].ch[s].c = c]
Sum(ch) == FoldLeft(LAMBDA x, k : x + k.c, 0, ch)
Calc(T, n) == Sum(Ch(T, n))
FirstKid(T, n) == Ch(T, n)[1].a
ChildLeaf(T, n) == IF Ch(T, n) = <<>> THEN TRUE ELSE FirstKid(T, n) < 0
IsFull(T, n) == Len(Ch(T, n)) >= M
IsLack(T, n) == Len(Ch(T, n)) < M \div 2
SlotOf(T, n, a) == CHOOSE i \in DOMAIN Ch(T, n) : Ch(T, n)[i].a = a
RemoveSlot(ch, i) == SubSeq(ch, 1, i - 1) \o SubSeq(ch, i + 1, Len(ch))
PutSlot(ch, i, k) == SubSeq(ch, 1, i - 1) \o <<k>> \o SubSeq(ch, i, Len(ch))

Without(f, a) == TLCEval([x \in DOMAIN f \ {a} |-> f[x]])
DelNode(T, n) == [T EXCEPT !.nd = Without(T.nd, n)]
DelLeaf(T, a) == [T EXCEPT !.lf = Without(T.lf, a)]
NewNode(T, p, s, ch) ==
    [T EXCEPT !.nd = (T.nx :> [p |-> p, s |-> s, ch |-> ch]) @@ T.nd, !.nx = T.nx + 1]
(* the new element is -T.lx *)
NewLeaf(T, p, n) ==
    [T EXCEPT !.lf = ((-T.lx) :> [p |-> p, n |-> n]) @@ T.lf, !.lx = T.lx + 1]

Empty ==
    [nd |-> (1 :> [p |-> 0, s |-> 0, ch |-> <<>>]), lf |-> <<>>, rt |-> 1, rc |-> 0,
     nx |-> 2, lx |-> 1]

Fold(T, s, F(_, _)) == FoldLeft(F, T, s)
Upto(n) == [i \in 1..n |-> i]
From(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]

(* a child's parent and slot *)
Adopt(T, a, p, s) ==
    IF a < 0 THEN [T EXCEPT !.lf[a].p = p]
    ELSE [T EXCEPT !.nd[a].p = p, !.nd[a].s = s]
AdoptAll(T, n) == Fold(T, Upto(Len(Ch(T, n))), LAMBDA t, i : Adopt(t, Ch(t, n)[i].a, n, i))

UpdateSlotsFrom(T, n, i0) ==
    IF Len(Ch(T, n)) < i0 \/ ChildLeaf(T, n) THEN T
    ELSE Fold(T, From(i0, Len(Ch(T, n))), LAMBDA t, i : [t EXCEPT !.nd[Ch(t, n)[i].a].s = i])

(* ------------------------------ splitting ------------------------------ *)
(* [t, par, slot, c, kid] *)
SplitNode(T, n) ==
    LET ch == Ch(T, n)
        at == Len(ch) \div 2
        r == T.nx
        T1 == NewNode(T, T.nd[n].p, 0, SubSeq(ch, at + 1, Len(ch)))
        T2 == SetCh(T1, n, SubSeq(ch, 1, at))
        T3 == AdoptAll(T2, r)
    IN [t |-> T3, par |-> T.nd[n].p, slot |-> T.nd[n].s, c |-> Calc(T3, n), kid |-> Kid(r, Calc(T3, r))]

SplitRoot(T, c, kid) ==
    LET l == T.nx
        T1 == NewNode(T, T.rt, 1, Ch(T, T.rt))
        T2 == SetCh(T1, T.rt, <<Kid(l, c), kid>>)
        T3 == [T2 EXCEPT !.nd[T.rt].p = 0, !.nd[kid.a].p = T.rt, !.nd[kid.a].s = 2]
        T4 == AdoptAll(T3, l)
    IN [T4 EXCEPT !.rc = Calc(T4, T.rt)]

RECURSIVE Split(_, _)
InnerInsertNode(T, p, s, c, kid) ==
    IF p = 0 THEN SplitRoot(T, c, kid)
    ELSE LET T1 == SetCh(SetCache(T, p, s, c), p, PutSlot(Ch(SetCache(T, p, s, c), p), s + 1, kid))
             T2 == UpdateSlotsFrom(T1, p, s + 1)
         IN IF IsFull(T2, p) THEN Split(T2, p) ELSE T2
Split(T, n) ==
    LET x == SplitNode(T, n) IN InnerInsertNode(x.t, x.par, x.slot, x.c, x.kid)

(* ------------------------------ summaries ------------------------------ *)
RECURSIVE ClimbDiff(_, _, _)
ClimbDiff(T, n, d) ==
    IF T.nd[n].p = 0 THEN [T EXCEPT !.rc = @ + d]
    ELSE LET p == T.nd[n].p s == T.nd[n].s
         IN ClimbDiff([T EXCEPT !.nd[p].ch[s].c = @ + d], p, d)
RECURSIVE ClimbCalc(_, _)
ClimbCalc(T, n) ==
    IF T.nd[n].p = 0 THEN [T EXCEPT !.rc = Calc(T, T.rt)]
    ELSE LET p == T.nd[n].p IN ClimbCalc(SetCache(T, p, T.nd[n].s, Calc(T, n)), p)
NoDiff == 999999
(* recursive_update_cache; d = NoDiff: the difference is not given *)
UpdateCache(T, a, diff, d) ==
    LET n == IF a < 0 THEN T.lf[a].p ELSE a
        T1 == IF a < 0 THEN SetCache(T, n, SlotOf(T, n, a), T.lf[a].n) ELSE T
    IN IF diff
       THEN IF d # NoDiff THEN ClimbDiff(T1, n, d)
            ELSE IF T1.nd[n].p = 0 THEN [T1 EXCEPT !.rc = Calc(T1, T1.rt)]
            ELSE LET p == T1.nd[n].p
                     s == T1.nd[n].s
                     new == Calc(T1, n)
                     dd == new - Ch(T1, p)[s].c
                 IN ClimbDiff(SetCache(T1, p, s, new), p, dd)
       ELSE ClimbCalc(T1, n)

(* ------------------------------ refilling ------------------------------ *)
RECURSIVE ReduceLevels(_)
ReduceLevels(T) ==
    IF Len(Ch(T, T.rt)) = 1 /\ ~ChildLeaf(T, T.rt)
    THEN LET c == FirstKid(T, T.rt)
         IN ReduceLevels(DelNode(SetCh(T, T.rt, Ch(T, c)), c))
    ELSE [T EXCEPT !.nd[T.rt].p = 0]
(* The collapsed root's children keep the slots they had below the child *)
TryReduceLevels(T) ==
    LET T1 == ReduceLevels(T)
    IN IF T1 = T THEN T
       ELSE Fold(T1, Ch(T1, T1.rt), LAMBDA t, k :
                IF k.a < 0 THEN [t EXCEPT !.lf[k.a].p = T.rt] ELSE [t EXCEPT !.nd[k.a].p = T.rt])

(* [t, up]: up is the parent if that lacks children now, else 0 *)
LackOf(T, p) == IF IsLack(T, p) THEN p ELSE 0
HandleLackSingle(T, n) ==
    IF n = T.rt THEN [t |-> TryReduceLevels(T), up |-> 0]
    ELSE
    LET p == T.nd[n].p
        s == T.nd[n].s
    IN IF Ch(T, n) = <<>>
       THEN [t |-> UpdateSlotsFrom(DelNode(SetCh(T, p, RemoveSlot(Ch(T, p), s)), n), p, s), up |-> p]
       ELSE IF s = 1 /\ Len(Ch(T, p)) < 2 THEN [t |-> T, up |-> p]
       ELSE
       LET sa == IF s = 1 THEN 1 ELSE s - 1
           sb == sa + 1
           a == Ch(T, p)[sa].a
           b == Ch(T, p)[sb].a
           ca == Ch(T, a)
           cb == Ch(T, b)
           la == Len(ca)
           lb == Len(cb)
       IN IF la + lb >= M
          THEN LET mv == IF la < lb THEN (lb - la) \div 2 ELSE (la - lb) \div 2
                   na == IF la < lb THEN ca \o SubSeq(cb, 1, mv) ELSE SubSeq(ca, 1, la - mv)
                   nb == IF la < lb THEN SubSeq(cb, mv + 1, lb) ELSE SubSeq(ca, la - mv + 1, la) \o cb
                   T1 == AdoptAll(AdoptAll(SetCh(SetCh(T, a, na), b, nb), a), b)
                   T2 == SetCache(SetCache(T1, p, sa, Sum(na)), p, sb, Sum(nb))
               IN [t |-> T2, up |-> LackOf(T2, p)]
          ELSE LET keep == n      \* the other one is merged into it
                   gone == IF n = a THEN b ELSE a
                   sk == IF n = a THEN sa ELSE sb
                   sg == IF n = a THEN sb ELSE sa
                   T1 == SetCh(T, keep, ca \o cb)
                   T2 == SetCache(T1, p, sk, Sum(ca \o cb))
                   T3 == DelNode(SetCh(T2, p, RemoveSlot(Ch(T2, p), sg)), gone)
                   T4 == AdoptAll(UpdateSlotsFrom(T3, p, sg), keep)
               IN [t |-> T4, up |-> LackOf(T4, p)]
RECURSIVE HandleLack(_, _)
HandleLack(T, n) ==
    LET x == HandleLackSingle(T, n) IN IF x.up = 0 THEN x.t ELSE HandleLack(x.t, x.up)

(* ------------------------------ neighbours ----------------------------- *)
RECURSIVE NextSame(_, _)
NextSame(T, x) ==       \* 0: none
    LET p == Par(T, x)
    IN IF p = 0 THEN 0
       ELSE LET s == IF x < 0 THEN SlotOf(T, p, x) ELSE T.nd[x].s
            IN IF s < Len(Ch(T, p)) THEN Ch(T, p)[s + 1].a
               ELSE LET q == NextSame(T, p) IN IF q = 0 THEN 0 ELSE FirstKid(T, q)
RECURSIVE PrevSame(_, _)
PrevSame(T, x) ==
    LET p == Par(T, x)
    IN IF p = 0 THEN 0
       ELSE LET s == IF x < 0 THEN SlotOf(T, p, x) ELSE T.nd[x].s
            IN IF s > 1 THEN Ch(T, p)[s - 1].a
               ELSE LET q == PrevSame(T, p) IN IF q = 0 THEN 0 ELSE Last(Ch(T, q)).a
RECURSIVE FirstLeafOf(_, _)
FirstLeafOf(T, n) == IF n < 0 THEN n ELSE FirstLeafOf(T, FirstKid(T, n))
RECURSIVE LastLeafOf(_, _)
LastLeafOf(T, n) == IF n < 0 THEN n ELSE LastLeafOf(T, Last(Ch(T, n)).a)
IsEmpty(T) == Ch(T, T.rt) = <<>>
(* from the root down: [a, s] *)
RECURSIVE PathOf(_, _)
PathOf(T, x) ==
    IF x = T.rt THEN <<[a |-> x, s |-> 1]>>
    ELSE LET p == Par(T, x)
             s == IF x < 0 THEN SlotOf(T, p, x) ELSE T.nd[x].s
         IN PathOf(T, p) \o <<[a |-> x, s |-> s]>>

(* ------------------------------ insertion ------------------------------ *)
(* split_leaf_if_needed at offset o of element a: [t, left, pos, par, slot, new],
   elements are 0 if there is none *)
RECURSIVE SplitLeaf(_, _, _)
SplitLeaf(T, a, o) ==
    LET p == T.lf[a].p
        s == SlotOf(T, p, a)
        left == IF o # 0 THEN a ELSE IF s = 1 THEN 0 ELSE Ch(T, p)[s - 1].a
    IN IF o = 0 THEN [t |-> T, left |-> left, pos |-> a, par |-> p, slot |-> s, new |-> 0]
       ELSE IF o = T.lf[a].n
       THEN [t |-> T, left |-> left, pos |-> NextSame(T, a), par |-> p, slot |-> s + 1, new |-> 0]
       ELSE IF Len(Ch(T, p)) + 1 >= M THEN SplitLeaf(Split(T, p), a, o)
       ELSE LET T1 == NewLeaf(T, p, T.lf[a].n - o)
                new == -T.lx
                T2 == [T1 EXCEPT !.lf[a].n = o]
                T3 == SetCache(T2, p, s, o)
                T4 == SetCh(T3, p, PutSlot(Ch(T3, p), s + 1, Kid(new, T.lf[a].n - o)))
            IN [t |-> T4, left |-> left, pos |-> new, par |-> p, slot |-> s + 1, new |-> new]

(* insertion as an element of its own; the new element is -(T'.lx - 1) *)
InsertByPath(T, a, o, n) ==
    LET x == SplitLeaf(T, a, o)
        p == x.par
        T1 == NewLeaf(x.t, p, n)
        T2 == SetCh(T1, p, PutSlot(Ch(T1, p), x.slot, Kid(-x.t.lx, n)))
        T3 == UpdateCache(T2, a, DIFF, IF DIFF THEN n ELSE NoDiff)
    IN IF IsFull(T2, p) THEN Split(T3, p) ELSE T3

Push(T, n) ==
    LET p == IF IsEmpty(T) THEN T.rt ELSE T.lf[LastLeafOf(T, T.rt)].p
        T1 == NewLeaf(T, p, n)
        T2 == SetCh(T1, p, Append(Ch(T1, p), Kid(-T.lx, n)))
        T3 == UpdateCache(T2, p, DIFF, IF DIFF THEN n ELSE NoDiff)
    IN IF IsFull(T2, p) /\ ~IsEmpty(T) THEN Split(T3, p) ELSE T3
Prepend(T, n) ==
    IF IsEmpty(T) THEN Push(T, n)
    ELSE LET a == FirstLeafOf(T, T.rt)
             p == T.lf[a].p
             T1 == NewLeaf(T, p, n)
             T2 == SetCh(T1, p, PutSlot(Ch(T1, p), 1, Kid(-T.lx, n)))
             T3 == UpdateCache(T2, a, DIFF, NoDiff)
         IN IF IsFull(T2, p) THEN Split(T3, p) ELSE T3

(* trees from nothing: create_subtrees_from_elem and from_iter *)
Chunks(s, k) ==
    [i \in 1..((Len(s) + k - 1) \div k) |-> SubSeq(s, (i - 1) * k + 1, Min2(i * k, Len(s)))]
RECURSIVE BuildLevel(_, _)
BuildLevel(T, kids) ==      \* kids: children to be grouped; ends with the root
    LET groups == Chunks(kids, M - 2)
        one(t, g) == AdoptAll(NewNode(t, 0, 0, g), t.nx)
        T1 == Fold(T, groups, one)
        new == [i \in DOMAIN groups |-> Kid(T.nx + i - 1, Sum(groups[i]))]
    IN IF Len(groups) = 1
       THEN [T1 EXCEPT !.rt = T.nx, !.rc = Sum(groups[1])]
       ELSE BuildLevel(T1, new)
BulkInto(T, ns) ==      \* T is an empty tree
    IF ns = <<>> THEN T
    ELSE LET T1 == Fold(T, ns, LAMBDA t, n : NewLeaf(t, 0, n))
             kids == [i \in DOMAIN ns |-> Kid(-(T.lx + i - 1), ns[i])]
         IN DelNode(BuildLevel(T1, kids), T.rt)

(* insert_many_by_cursor of at least two elements, none of which merge *)
RECURSIVE InsertEach(_, _, _, _)
InsertEach(T, a, o, ns) ==      \* the last one first
    IF ns = <<>> THEN T
    ELSE LET T1 == InsertByPath(T, a, o, Last(ns))
         IN InsertEach(T1, -(T1.lx - 1), 0, Front(ns))
InsertMany(T, a, o, ns) ==
    LET x == SplitLeaf(T, a, o)
        T1 == IF x.left # 0 THEN UpdateCache(x.t, x.left, DIFF, NoDiff) ELSE x.t
    IN IF x.pos # 0 THEN InsertEach(T1, x.pos, 0, ns)
       ELSE LET e == LastLeafOf(T1, T1.rt) IN InsertEach(T1, e, T1.lf[e].n, ns)

(* ------------------------------- removal ------------------------------- *)
RECURSIVE RemoveInternal(_, _)
RemoveInternal(T, n) ==
    IF n = T.rt THEN T
    ELSE LET p == T.nd[n].p
             s == T.nd[n].s
             T1 == DelNode(SetCh(T, p, RemoveSlot(Ch(T, p), s)), n)
             T2 == UpdateSlotsFrom(T1, p, s)
         IN IF Ch(T1, p) = <<>> THEN RemoveInternal(T2, p)
            ELSE IF IsLack(T1, p) THEN HandleLack(T2, p) ELSE T2
RemoveLeaf(T, a) ==
    LET p == T.lf[a].p
        T1 == DelLeaf(SetCh(T, p, RemoveSlot(Ch(T, p), SlotOf(T, p, a))), a)
        T2 == UpdateCache(T1, p, DIFF, NoDiff)
    IN IF Ch(T1, p) = <<>> THEN RemoveInternal(T2, p)
       ELSE IF IsLack(T1, p) THEN HandleLack(T2, p) ELSE T2

(* ------------------------------- updates ------------------------------- *)
(* update_leaf that leaves nothing *)
UpdateLeafGone(T, a) ==
    LET p == T.lf[a].p
        T1 == UpdateCache([T EXCEPT !.lf[a].n = 0], a, DIFF, NoDiff)
        T2 == DelLeaf(SetCh(T1, p, RemoveSlot(Ch(T1, p), SlotOf(T1, p, a))), a)
    IN IF IsLack(T2, p) THEN HandleLack(T2, p) ELSE T2
(* update_leaf that leaves n units and adds one or two elements *)
UpdateLeafAdd(T, a, n, ns) ==
    LET T0 == UpdateCache([T EXCEPT !.lf[a].n = n], a, DIFF, NoDiff)
        p0 == T0.lf[a].p
        T1 == IF Len(Ch(T0, p0)) + Len(ns) >= M THEN Split(T0, p0) ELSE T0
        p == T1.lf[a].p
        s == SlotOf(T1, p, a)
        T2 == Fold(T1, ns, LAMBDA t, k : NewLeaf(t, p, k))
        kids == [i \in DOMAIN ns |-> Kid(-(T1.lx + i - 1), ns[i])]
        T3 == SetCh(T2, p, SubSeq(Ch(T2, p), 1, s) \o kids \o SubSeq(Ch(T2, p), s + 1, Len(Ch(T2, p))))
    IN UpdateCache(T3, p, DIFF, NoDiff)

(* update_leaf_by_search that leaves nothing; it uses differences always *)
SearchGone(T, a) ==
    LET path == PathOf(T, a)
        d == -T.lf[a].n
        (* from the element's node up; acc: [t, lack, child] *)
        step(acc, k) ==
            LET n == path[k].a
                s == path[k + 1].s
                t1 == IF k = Len(path) - 1
                      THEN SetCh(acc.t, n, RemoveSlot(Ch(acc.t, n), s))
                      ELSE [acc.t EXCEPT !.nd[n].ch[s].c = @ + d]
                lack == IsLack(t1, n)
                t2 == IF acc.lack THEN HandleLackSingle(t1, acc.child).t ELSE t1
            IN [t |-> t2, lack |-> lack, child |-> n]
        r == FoldLeft(step, [t |-> DelLeaf(T, a), lack |-> FALSE, child |-> a],
                      Reverse(Upto(Len(path) - 1)))
        T1 == [r.t EXCEPT !.rc = @ + d]
    IN IF r.lack /\ Len(Ch(T1, T1.rt)) = 1 /\ ~ChildLeaf(T1, T1.rt) THEN TryReduceLevels(T1) ELSE T1
(* ... that leaves n units and adds an element of m units *)
SearchAdd(T, a, n, m) ==
    LET path == PathOf(T, a)
        d == n + m - T.lf[a].n
        T0 == NewLeaf([T EXCEPT !.lf[a].n = n], path[Len(path) - 1].a, m)
        (* acc: [t, has, c, kid] *)
        step(acc, k) ==
            LET x == path[k].a
                s == path[k + 1].s
            IN IF ~acc.has
               THEN [acc EXCEPT !.t = [acc.t EXCEPT !.nd[x].ch[s].c = @ + d]]
               ELSE LET t1 == SetCache(acc.t, x, s, acc.c)
                        t2 == UpdateSlotsFrom(SetCh(t1, x, PutSlot(Ch(t1, x), s + 1, acc.kid)), x, s + 1)
                    IN IF IsFull(t2, x)
                       THEN LET q == SplitNode(t2, x) IN [t |-> q.t, has |-> TRUE, c |-> q.c, kid |-> q.kid]
                       ELSE [t |-> t2, has |-> FALSE, c |-> 0, kid |-> Kid(0, 0)]
        r == FoldLeft(step, [t |-> T0, has |-> TRUE, c |-> n, kid |-> Kid(-T.lx, m)],
                      Reverse(Upto(Len(path) - 1)))
    IN IF r.has THEN SplitRoot(r.t, r.c, r.kid) ELSE [r.t EXCEPT !.rc = @ + d]

(* --------------------------- ranges: update, drain --------------------- *)
RECURSIVE LeavesFrom(_, _, _)
LeavesFrom(T, a, end) ==        \* the elements from a on, before `end` (0: to the last)
    IF a = end \/ a = 0 THEN <<>> ELSE <<a>> \o LeavesFrom(T, NextSame(T, a), end)
(* the summaries after elements have changed by the differences D (element ->
   difference), level by level upwards: update_dirty_cache_map *)
RECURSIVE DirtyUp(_, _)
DirtyUp(T, D) ==        \* D: inner nodes of one level -> difference
    LET up == {n \in DOMAIN D : T.nd[n].p # 0}
        step(acc, n) ==
            LET p == acc.t.nd[n].p
                s == acc.t.nd[n].s
                old == Ch(acc.t, p)[s].c
                new == IF DIFF THEN old + D[n] ELSE Calc(acc.t, n)
                d == IF DIFF THEN D[n] ELSE new - old
            IN [t |-> SetCache(acc.t, p, s, new),
                d |-> IF p \in DOMAIN acc.d THEN [acc.d EXCEPT ![p] = @ + d] ELSE (p :> d) @@ acc.d]
        r == FoldLeft(step, [t |-> T, d |-> <<>>], SetToSeq(up))
    IN IF up = {} THEN T ELSE DirtyUp(r.t, r.d)
DirtyMap(T, D) ==
    LET step(acc, l) ==
            LET p == acc.t.lf[l].p
                s == SlotOf(acc.t, p, l)
            IN [t |-> [acc.t EXCEPT !.nd[p].ch[s].c = @ + D[l]],
                d |-> IF p \in DOMAIN acc.d THEN [acc.d EXCEPT ![p] = @ + D[l]] ELSE (p :> D[l]) @@ acc.d]
        r == FoldLeft(step, [t |-> T, d |-> <<>>], SetToSeq(DOMAIN D))
        T1 == DirtyUp(r.t, r.d)
    IN [T1 EXCEPT !.rc = Calc(T1, T1.rt)]

(* update of a range: the k-th piece of n units becomes New(k, n) units long *)
UpdateRange(T, a, oa, b, ob, New(_, _)) ==
    LET e == SplitLeaf(T, b, ob)
        x == SplitLeaf(e.t, a, oa)
        all == LeavesFrom(x.t, x.pos, e.pos)
        len == TLCEval([k \in DOMAIN all |-> New(k, x.t.lf[all[k]].n)])
        changed == {k \in DOMAIN all : len[k] # x.t.lf[all[k]].n}
        D == TLCEval([l \in {all[k] : k \in changed} |->
                LET k == CHOOSE q \in changed : all[q] = l IN len[k] - x.t.lf[l].n])
        T1 == Fold(x.t, Upto(Len(all)), LAMBDA t, k : [t EXCEPT !.lf[all[k]].n = len[k]])
        T2 == IF DOMAIN D # {} THEN DirtyMap(T1, D) ELSE [T1 EXCEPT !.rc = Calc(T1, T1.rt)]
    IN IF x.pos = 0 THEN x.t
       ELSE Fold(T2, SelectSeq(all, LAMBDA l : T2.lf[l].n = 0), RemoveLeaf)

(* update_leaves_with_arg_in_ranges; v: <<element, <<lengths of its parts>>>>
   in the order in which their parts are inserted *)
RECURSIVE InsertParts(_, _, _)
InsertParts(T, a, ns) ==
    IF ns = <<>> THEN T
    ELSE LET T1 == InsertByPath(T, a, T.lf[a].n, ns[1])
         IN InsertParts(T1, -(T1.lx - 1), Tail(ns))
UpdateParts(T, v) ==
    LET T1 == Fold(T, v, LAMBDA t, q : [t EXCEPT !.lf[q[1]].n = q[2][1]])
        D == TLCEval([l \in {v[k][1] : k \in DOMAIN v} |-> T1.lf[l].n - T.lf[l].n])
    IN Fold(DirtyMap(T1, D), v, LAMBDA t, q : InsertParts(t, q[1], Tail(q[2])))

Purge(T, a) ==      \* with everything below
    LET RECURSIVE go(_, _)
        go(t, x) ==
            IF x < 0 THEN (IF x \in DOMAIN t.lf THEN DelLeaf(t, x) ELSE t)
            ELSE IF x \notin DOMAIN t.nd THEN t
            ELSE Fold(DelNode(t, x), Ch(t, x), LAMBDA u, k : go(u, k.a))
    IN go(T, a)
FilterDeleted(T, n) ==
    SetCh(T, n, SelectSeq(Ch(T, n), LAMBDA k : IF k.a < 0 THEN k.a \in DOMAIN T.lf ELSE k.a \in DOMAIN T.nd))

(* handle_lack_on_path_to_leaf *)
RECURSIVE LackOnPath(_, _, _)
LackOnPath(T, leaf, lastc) ==
    LET path == PathOf(T, leaf)
        step(acc, i) ==
            IF IsLack(acc.t, path[i].a)
            THEN LET x == HandleLackSingle(acc.t, path[i].a)
                 IN [t |-> x.t, n |-> acc.n + (IF x.up # 0 THEN 1 ELSE 0)]
            ELSE acc
        r == FoldLeft(step, [t |-> T, n |-> 0], From(2, Len(path) - 1))
    IN IF r.n = 0 \/ r.n = lastc THEN r.t ELSE LackOnPath(r.t, leaf, r.n)
Seal(T, leaf) ==
    LET T1 == LackOnPath(T, leaf, 0)
        sib == NextSame(T1, leaf)
        T2 == IF sib = 0 THEN T1 ELSE LackOnPath(T1, sib, 0)
    IN TryReduceLevels(T2)

Drain(T, a, oa, b, ob) ==
    LET e == SplitLeaf(T, b, ob)
        x == SplitLeaf(e.t, a, oa)
        T0 == x.t
    IN IF x.pos = 0 THEN T0
       ELSE
       LET sp == PathOf(T0, x.pos)
           ep == PathOf(T0, IF e.pos = 0 THEN LastLeafOf(T0, T0.rt) ELSE e.pos)
           before == PrevSame(T0, x.pos)
           after == e.pos
           drained == LeavesFrom(T0, x.pos, e.pos)
           T1 == Fold(T0, drained, DelLeaf)
           bot == Len(sp) - 1
           T2 == FilterDeleted(FilterDeleted(T1, sp[bot].a), ep[bot].a)
           RECURSIVE up(_, _, _)    \* [t, del, level]
           up(t, del, k) ==
               IF sp[k].a = ep[k].a THEN [t |-> t, del |-> del, k |-> k]
               ELSE LET ds == IF Ch(t, sp[k].a) = <<>> THEN sp[k].s ELSE sp[k].s + 1
                        de == IF Ch(t, ep[k].a) = <<>> THEN ep[k].s + 1 ELSE ep[k].s
                        ps == sp[k - 1].a
                        pe == ep[k - 1].a
                    IN IF ps = pe
                       THEN LET ch == Ch(t, ps)
                                t1 == SetCh(t, ps, SubSeq(ch, 1, ds - 1) \o SubSeq(ch, de, Len(ch)))
                            IN up(UpdateSlotsFrom(t1, ps, ds), del \o SubSeq(ch, ds, de - 1), k - 1)
                       ELSE LET cs == Ch(t, ps)
                                ce == Ch(t, pe)
                                t1 == SetCh(SetCh(t, ps, SubSeq(cs, 1, ds - 1)), pe, SubSeq(ce, de, Len(ce)))
                            IN up(UpdateSlotsFrom(t1, pe, 1),
                                  del \o SubSeq(cs, ds, Len(cs)) \o SubSeq(ce, 1, de - 1), k - 1)
           u == up(T2, <<>>, bot)
           RECURSIVE prune(_, _, _)
           prune(t, del, k) ==
               IF k >= 2 /\ Ch(t, sp[k].a) = <<>>
               THEN LET p == sp[k - 1].a
                        s == sp[k].s
                        t1 == UpdateSlotsFrom(SetCh(t, p, RemoveSlot(Ch(t, p), s)), p, s)
                    IN prune(t1, Append(del, Kid(sp[k].a, 0)), k - 1)
               ELSE [t |-> t, del |-> del]
           v == prune(u.t, u.del, u.k)
           T3 == Fold(v.t, v.del, LAMBDA t, k : Purge(t, k.a))
           T4 == IF after # 0 THEN UpdateCache(T3, after, after = before, NoDiff) ELSE T3
       IN IF before # 0
          THEN LET T5 == UpdateCache(T4, before, FALSE, NoDiff)
                   T6 == IF after # 0 THEN UpdateCache(T5, after, FALSE, NoDiff) ELSE T5
               IN Seal(T6, before)
          ELSE TryReduceLevels([T4 EXCEPT !.rc = Calc(T4, T4.rt)])

(* ----------------------- what must hold of a tree ---------------------- *)
RECURSIVE LeavesBelow(_, _)
LeavesBelow(T, n) ==
    IF n < 0 THEN <<n>> ELSE FlattenSeq([i \in DOMAIN Ch(T, n) |-> LeavesBelow(T, Ch(T, n)[i].a)])
Leaves(T) == LeavesBelow(T, T.rt)
RECURSIVE NodesBelow(_, _)
NodesBelow(T, n) ==
    IF n < 0 THEN <<>>
    ELSE <<n>> \o FlattenSeq([i \in DOMAIN Ch(T, n) |-> NodesBelow(T, Ch(T, n)[i].a)])
RECURSIVE UnitsBelow(_, _)
UnitsBelow(T, n) ==
    IF n < 0 THEN T.lf[n].n ELSE SumOf([i \in DOMAIN Ch(T, n) |-> UnitsBelow(T, Ch(T, n)[i].a)])
RECURSIVE DepthsBelow(_, _)
DepthsBelow(T, n) ==
    IF n < 0 THEN {0}
    ELSE UNION {{d + 1 : d \in DepthsBelow(T, Ch(T, n)[i].a)} : i \in DOMAIN Ch(T, n)}

OnceReachable(T) ==
    LET ns == NodesBelow(T, T.rt)
        ls == Leaves(T)
    IN /\ {ns[i] : i \in DOMAIN ns} = DOMAIN T.nd /\ Cardinality(DOMAIN T.nd) = Len(ns)
       /\ {ls[i] : i \in DOMAIN ls} = DOMAIN T.lf /\ Cardinality(DOMAIN T.lf) = Len(ls)
LinksRight(T) ==
    /\ T.nd[T.rt].p = 0
    /\ \A n \in DOMAIN T.nd : \A i \in DOMAIN Ch(T, n) :
         LET a == Ch(T, n)[i].a
         IN IF a < 0 THEN T.lf[a].p = n ELSE T.nd[a].p = n /\ T.nd[a].s = i
SummariesRight(T) ==
    /\ T.rc = UnitsBelow(T, T.rt)
    /\ \A n \in DOMAIN T.nd : \A i \in DOMAIN Ch(T, n) :
         Ch(T, n)[i].c = UnitsBelow(T, Ch(T, n)[i].a)
RoomLeft(T) ==
    \A n \in DOMAIN T.nd : Len(Ch(T, n)) < M /\ (Ch(T, n) # <<>> \/ n = T.rt)
SameDepth(T) == Cardinality(DepthsBelow(T, T.rt)) <= 1
Collapsed(T) == Len(Ch(T, T.rt)) = 1 => ChildLeaf(T, T.rt)
WellFormed(T) ==
    /\ OnceReachable(T) /\ LinksRight(T) /\ SummariesRight(T)
    /\ RoomLeft(T) /\ SameDepth(T) /\ Collapsed(T)

(* ------------------------------ navigation ----------------------------- *)
(* compare_pos of elements *)
RECURSIVE CompareUp(_, _, _)
CompareUp(T, a, b) ==
    IF T.nd[a].p # T.nd[b].p THEN CompareUp(T, T.nd[a].p, T.nd[b].p)
    ELSE IF T.nd[a].s < T.nd[b].s THEN -1 ELSE IF T.nd[a].s = T.nd[b].s THEN 0 ELSE 1
Compare(T, a, b) ==
    LET pa == T.lf[a].p pb == T.lf[b].p
    IN IF a = b THEN 0
       ELSE IF pa = pb THEN IF SlotOf(T, pa, a) < SlotOf(T, pa, b) THEN -1 ELSE 1
       ELSE CompareUp(T, pa, pb)

(* a position lookup: [a, o, f] *)
RECURSIVE Descent(_, _, _, _)
Descent(T, n, left, found) ==
    LET ch == Ch(T, n)
        run == Running([i \in DOMAIN ch |-> ch[i].c])
        i == FirstOr(1, Len(ch), LAMBDA q : run[q + 1] > left, Len(ch))
        hit == run[Len(ch) + 1] > left
    IN IF ch[i].a < 0 THEN [a |-> ch[i].a, o |-> left - run[i], f |-> found /\ hit]
       ELSE Descent(T, ch[i].a, left - run[i], found /\ hit)
LookupAlg(T, pos) == Descent(T, T.rt, pos, TRUE)

(* shift_path_by_one_offset: [a, o]; a = 0: none *)
RECURSIVE ShiftAt(_, _, _, _)
ShiftAt(T, p, s, o) ==
    IF s > Len(Ch(T, p))
    THEN LET q == NextSame(T, p) IN IF q = 0 THEN [a |-> 0, o |-> 0] ELSE ShiftAt(T, q, 1, o)
    ELSE LET a == Ch(T, p)[s].a
         IN IF T.lf[a].n <= o THEN ShiftAt(T, p, s + 1, o - T.lf[a].n) ELSE [a |-> a, o |-> o]
Shift(T, a, o) ==
    IF o + 1 < T.lf[a].n THEN [a |-> a, o |-> o + 1]
    ELSE ShiftAt(T, T.lf[a].p, SlotOf(T, T.lf[a].p, a), o + 1)

(* visit_previous_caches: the summaries reported *)
Visited(T, a) ==
    LET path == PathOf(T, a)
    IN FlattenSeq([k \in 1..Len(path) - 1 |->
          [i \in 1..path[k + 1].s - 1 |-> Ch(T, path[k].a)[i].c]])

(* next_sibling on a path, and the order in which `iter` meets the lowest nodes *)
RECURSIVE NextSibling(_, _)
NextSibling(T, path) ==     \* <<>>: none
    LET n == Len(path)
    IN IF n <= 1 THEN <<>>
       ELSE LET ch == Ch(T, path[n - 1].a)
                s == path[n].s
            IN IF s < Len(ch) THEN Append(Front(path), [a |-> ch[s + 1].a, s |-> s + 1])
               ELSE LET up == NextSibling(T, Front(path))
                    IN IF up = <<>> THEN <<>>
                       ELSE Append(up, [a |-> FirstKid(T, Last(up).a), s |-> 1])
RECURSIVE IterFrom(_, _)
IterFrom(T, path) ==        \* path ends with a lowest node
    LET here == Ch(T, Last(path).a)
        nx == NextSibling(T, path)
    IN [i \in DOMAIN here |-> here[i].a] \o (IF nx = <<>> THEN <<>> ELSE IterFrom(T, nx))
IterAlg(T) == IF IsEmpty(T) THEN <<>> ELSE IterFrom(T, Front(PathOf(T, FirstLeafOf(T, T.rt))))

(* what these must come to, for a well formed tree *)
NavigationRight(T) ==
    LET ls == Leaves(T)
        us == Running([i \in DOMAIN ls |-> T.lf[ls[i]].n])
        n == Len(ls)
    IN /\ IterAlg(T) = ls
       /\ \A i \in 1..n :
            /\ NextSame(T, ls[i]) = (IF i < n THEN ls[i + 1] ELSE 0)
            /\ PrevSame(T, ls[i]) = (IF i > 1 THEN ls[i - 1] ELSE 0)
            /\ SumOf(Visited(T, ls[i])) = us[i]
            /\ \A o \in 0..T.lf[ls[i]].n :
                 LET x == Shift(T, ls[i], o)
                 IN IF us[i] + o + 1 >= us[n + 1] THEN x.a = 0
                    ELSE x = [a |-> LookupAlg(T, us[i] + o + 1).a, o |-> LookupAlg(T, us[i] + o + 1).o]
            /\ \A j \in 1..n : Compare(T, ls[i], ls[j]) = (IF i < j THEN -1 ELSE IF i = j THEN 0 ELSE 1)
       /\ n > 0 => \A p \in 0..us[n + 1] + 1 :
            LET x == LookupAlg(T, p)
                i == FirstOr(1, n, LAMBDA q : us[q + 1] > p, n)
            IN x = [a |-> ls[i], o |-> p - us[i], f |-> p < us[n + 1]]

(* ------------------------------- shapes -------------------------------- *)
(* What the algorithms depend on: the numbers of children, level by level
   from the bottom; the last level is the root alone. *)
RECURSIVE LevelsUp(_, _)
LevelsUp(T, nodes) ==
    LET here == [i \in DOMAIN nodes |-> Len(Ch(T, nodes[i]))]
        below == FlattenSeq([i \in DOMAIN nodes |-> [k \in DOMAIN Ch(T, nodes[i]) |-> Ch(T, nodes[i])[k].a]])
    IN IF below = <<>> THEN <<here>>
       ELSE IF below[1] < 0 THEN <<here>> ELSE LevelsUp(T, below) \o <<here>>
ShapeOf(T) == LevelsUp(T, <<T.rt>>)
(* a tree of a shape, every element n units long *)
RECURSIVE Assemble(_, _, _)
Assemble(T, sh, kids) ==
    IF sh = <<>> THEN [T EXCEPT !.rt = kids[1].a, !.rc = kids[1].c]
    ELSE LET st == Running(sh[1])
             one(t, i) == AdoptAll(NewNode(t, 0, 0, SubSeq(kids, st[i] + 1, st[i + 1])), t.nx)
             T1 == Fold(T, Upto(Len(sh[1])), one)
         IN Assemble(T1, Tail(sh),
                     [i \in DOMAIN sh[1] |-> Kid(T.nx + i - 1, Sum(SubSeq(kids, st[i] + 1, st[i + 1])))])
TreeOf(sh, n) ==
    LET k == SumOf(sh[1])
        T1 == Fold([Empty EXCEPT !.nd = <<>>, !.nx = 1], Upto(k), LAMBDA t, i : NewLeaf(t, 0, n))
    IN Assemble(T1, sh, [i \in 1..k |-> Kid(-i, n)])
EmptyShape == <<<<0>>>>
=============================================================================
