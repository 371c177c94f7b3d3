------------------------------- MODULE GBTree -------------------------------
(***************************************************************************)
(* The specification of a generic_btree::BTree.                            *)
(*                                                                         *)
(* A tree holds a sequence of elements.  An element has a handle (a        *)
(* number), a summary and its content, a sequence of items.  An item >= 0  *)
(* is one unit of length; an element of length zero (a "marker") has one   *)
(* negative item.  Above the elements are levels of nodes; a node has a    *)
(* number of children and a summary.                                       *)
(*                                                                         *)
(*   element   <<handle, <<len, x>>, items>>                               *)
(*   node      <<number of children, len, x>>                              *)
(*   tree      [lf : elements, lv : levels bottom-up (the last is the      *)
(*              root alone), rc : root summary, nl : number of nodes,      *)
(*              mx : largest handle ever known, pk : most elements ever]   *)
(*                                                                         *)
(* A place is a gap: gap g has g items of the whole content before it.     *)
(*                                                                         *)
(* Every operation is specified by the content it must leave (a "plan":    *)
(* what each item of the new content was before), by what it may return,   *)
(* and by what it may do to handles.  How elements are divided into nodes, *)
(* and which elements are merged, is left open within the rules for well   *)
(* formed trees.                                                           *)
(***************************************************************************)
EXTENDS GBTSeq

(* ------------------------------ items --------------------------------- *)
Mag(x) == IF x < 0 THEN -x - 1 ELSE x
Val(x) == Mag(x) % 8
(* what an item adds to the second measure; a zero-length element may add nothing *)
Weight(x) == Val(x) + (IF x < 0 THEN 0 ELSE 1)
Ident(x) == Mag(x) \div 8
AddTo(x, d) ==
    LET m == Mag(x)
        z == (m - (m % 8)) + (((m % 8) + d) % 8)
    IN IF x < 0 THEN -z - 1 ELSE z
AddAll(it, d) == [i \in DOMAIN it |-> AddTo(it[i], d)]

IsMarker(it) == IF it = <<>> THEN FALSE ELSE it[1] < 0
ULen(it) == IF IsMarker(it) THEN 0 ELSE Len(it)

(* the two kinds of second measure *)
XOf(ty, it) ==
    IF ty = "max"
    THEN FoldLeft(LAMBDA a, b : Max2(a, Weight(b)), 0, it)
    ELSE FoldLeft(LAMBDA a, b : a + Weight(b), 0, it)
Measure(ty, it) == <<ULen(it), XOf(ty, it)>>
Join(ty, a, b) == <<a[1] + b[1], IF ty = "max" THEN Max2(a[2], b[2]) ELSE a[2] + b[2]>>

(* ----------------------------- elements ------------------------------- *)
Id(l) == l[1]
Sm(l) == l[2]
It(l) == l[3]
Items(ls) == FlattenSeq([i \in DOMAIN ls |-> It(ls[i])])
Ids(ls) == {Id(ls[i]) : i \in DOMAIN ls}
(* the handle of every item *)
Owners(ls) == FlattenSeq([i \in DOMAIN ls |-> [k \in DOMAIN It(ls[i]) |-> Id(ls[i])]])
(* the gap at which each element starts, and the end *)
Starts(ls) == Running([i \in DOMAIN ls |-> Len(It(ls[i]))])
(* the same counted in units *)
UStarts(ls) == Running([i \in DOMAIN ls |-> ULen(It(ls[i]))])

Where(ls, id) == FirstOr(1, Len(ls), LAMBDA i : Id(ls[i]) = id, 0)

(* the gap a cursor <<handle, offset>> names *)
GapOf(ls, c) ==
    LET i == Where(ls, c[1]) IN SumOf([j \in 1..i-1 |-> Len(It(ls[j]))]) + c[2]

(* Lookup by position: the element that covers the position, or the last
   one with what is left.  <<index, offset, found>>; index 0: no element. *)
LookupIn(ls, us, pos) ==
    LET n == Len(ls)
        i == FirstOr(1, n, LAMBDA j : us[j + 1] > pos, n)
    IN IF n = 0 THEN <<0, 0, FALSE>>
       ELSE <<i, pos - us[i], pos < us[n + 1]>>
Lookup(ls, pos) == LookupIn(ls, UStarts(ls), pos)
LookupCursor(ls, pos) ==
    LET r == Lookup(ls, pos) IN IF r[1] = 0 THEN <<-1, 0>> ELSE <<Id(ls[r[1]]), r[2]>>

Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* ----------------------- merging of neighbours ------------------------ *)
(* May item b follow item a inside one element without having done so before? *)
MayJoin(md, a, b) ==
    /\ a >= 0 /\ b >= 0
    /\ CASE md = "Text" -> TRUE
         [] md = "Rle"  -> a = b
         [] md = "Run"  -> a + 8 = b
         [] OTHER       -> FALSE
Joints(it) == {<<Ident(it[i]), Ident(it[i + 1])>> : i \in 1..Len(it) - 1}
JointsOf(its) == UNION {Joints(its[i]) : i \in DOMAIN its}
(* elements come only from the given contents and from permitted joints *)
MergedRightly(md, cap, post, contents) ==
    LET known == JointsOf(contents)
    IN \A i \in DOMAIN post :
         LET it == It(post[i])
         IN /\ md = "Text" => Len(it) <= cap
            /\ md # "Rle" => \A k \in 1..Len(it) - 1 :
                 \/ <<Ident(it[k]), Ident(it[k + 1])>> \in known
                 \/ MayJoin(md, it[k], it[k + 1])
            /\ md = "Rle" => \A k \in 1..Len(it) - 1 :
                 \/ it[k] = it[k + 1]
                 \/ \E c \in DOMAIN contents : \E q \in 1..Len(contents[c]) - 1 :
                        contents[c][q] = it[k] /\ contents[c][q + 1] = it[k + 1]

(* ------------------------------- plans -------------------------------- *)
(* A plan for a part of the tree: the items it must hold afterwards, for
   each the position it had before (0: it is new), and the positions whose
   handle may change because an element was split before them. *)
Plan(flat, src, loose) == [flat |-> flat, src |-> src, loose |-> loose]
Upto(n) == [i \in 1..n |-> i]

(* items of an element to the right of the first of the gaps inside it *)
LooseBy(ls, gaps) ==
    LET st == Starts(ls)
    IN UNION {LET ins == {g \in gaps : st[i] < g /\ g < st[i + 1]}
              IN IF ins = {} THEN {}
                 ELSE (1 + CHOOSE g \in ins : \A h \in ins : g <= h)..st[i + 1]
              : i \in DOMAIN ls}

InsertPlan(ls, g, new) ==
    LET f == Items(ls)
    IN Plan(Splice(f, g, new),
            Splice(Upto(Len(f)), g, [i \in DOMAIN new |-> 0]),
            LooseBy(ls, {g}))

DeletePlan(ls, a, b) ==
    LET f == Items(ls)
    IN Plan(Cut(f, a, b), Cut(Upto(Len(f)), a, b), LooseBy(ls, {a, b}))

KeepPlan(ls) == LET f == Items(ls) IN Plan(f, Upto(Len(f)), {})

(* a function given to an update may make an element longer: one unit becomes two *)
Grows(it) == Len(it) = 1 /\ ~IsMarker(it)
Grown(item, x) == <<item, AddTo(item, x)>>

(* What the function given to `update` does to the n-th piece: <<items, which>> *)
UpdPiece(k, x, it, n) ==
    LET even == Val(it[1]) % 2 = 0
    IN CASE k = 0 -> <<AddAll(it, x), Upto(Len(it))>>
         [] k = 1 -> <<it, Upto(Len(it))>>
         [] k = 2 -> IF even THEN <<<<>>, <<>>>> ELSE <<it, Upto(Len(it))>>
         [] k = 3 -> <<IF even THEN AddAll(it, x) ELSE it, Upto(Len(it))>>
         [] k = 5 -> <<<<>>, <<>>>>
         [] k = 6 -> IF n % 2 = 1 THEN <<<<>>, <<>>>> ELSE <<it, Upto(Len(it))>>
         [] k = 7 -> IF Grows(it) THEN <<Grown(it[1], x), <<1, 0>>>> ELSE <<it, Upto(Len(it))>>
         [] OTHER -> <<<<it[1]>>, <<1>>>>

(* the pieces of the elements that lie between gaps a and b: <<from, to>> gaps *)
PiecesBetween(ls, a, b) ==
    LET st == Starts(ls)
        cut == TLCEval([i \in DOMAIN ls |-> <<Max2(st[i], a), Min2(st[i + 1], b)>>])
    IN SelectSeq(cut, LAMBDA p : p[1] < p[2])

UpdatePlan(ls, a, b, k, x) ==
    LET f == Items(ls)
        ps == PiecesBetween(ls, a, b)
        outs == TLCEval([i \in DOMAIN ps |-> UpdPiece(k, x, SubSeq(f, ps[i][1] + 1, ps[i][2]), i)])
        mid == FlattenSeq([i \in DOMAIN ps |-> outs[i][1]])
        src == FlattenSeq([i \in DOMAIN ps |->
                   [q \in DOMAIN outs[i][2] |->
                       IF outs[i][2][q] = 0 THEN 0 ELSE ps[i][1] + outs[i][2][q]]])
    IN Plan(Before(f, a) \o mid \o After(f, b),
            Before(Upto(Len(f)), a) \o src \o After(Upto(Len(f)), b),
            LooseBy(ls, {a, b}))

(* element i replaced by given pieces *)
ReplacePlan(ls, i, pieces) ==
    LET st == Starts(ls)
        f == Items(ls)
        new == FlattenSeq(pieces)
    IN Plan(Before(f, st[i]) \o new \o After(f, st[i + 1]),
            Before(Upto(Len(f)), st[i]) \o [q \in DOMAIN new |-> 0]
                \o After(Upto(Len(f)), st[i + 1]),
            {})

(* Sub-ranges <<handle, from, to, x>>; the range 0..0 of a marker is the
   whole marker.  What is done to a piece <<<<item, position before>>, ...>>: x is
   added to its items; an x of 8..15 lets one unit become two, a larger one
   leaves the first item only. *)
Touch(w, x) ==
    LET y == [i \in DOMAIN w |-> <<AddTo(w[i][1], x), w[i][2]>>]
    IN IF x \in 8..15 /\ Len(w) = 1 /\ w[1][1] >= 0
       THEN <<y[1], <<AddTo(y[1][1], 1), 0>>>>
       ELSE IF x >= 16 THEN <<y[1]>> ELSE y

RangesPlan(ls, v) ==
    LET f == Items(ls)
        st == Starts(ls)
        at == TLCEval([q \in DOMAIN v |->
                 LET i == Where(ls, v[q][1])
                 IN <<st[i] + v[q][2],
                      st[i] + (IF IsMarker(It(ls[i])) THEN 1 ELSE v[q][3]), v[q][4]>>])
        real == SelectSeq(at, LAMBDA r : r[1] < r[2])
        cuts == TLCEval({real[q][1] : q \in DOMAIN real} \cup {real[q][2] : q \in DOMAIN real})
        edges == TLCEval(Ascending(cuts \cup {st[i] : i \in DOMAIN st}))
        piece(k) == FoldLeft(
            LAMBDA w, r : IF r[1] <= edges[k] /\ edges[k + 1] <= r[2] THEN Touch(w, r[3]) ELSE w,
            [i \in 1..edges[k + 1] - edges[k] |-> <<f[edges[k] + i], edges[k] + i>>], real)
        all == TLCEval(FlattenSeq([k \in 1..Len(edges) - 1 |-> piece(k)]))
    IN Plan([i \in DOMAIN all |-> all[i][1]], [i \in DOMAIN all |-> all[i][2]], LooseBy(ls, cuts))

(* ------------------------- what must hold after ----------------------- *)
ContentAsPlanned(plan, post) == Items(post) = plan.flat

(* Handles: an item that was there before and whose element was not split
   before it still belongs to the element it belonged to. *)
HandlesKept(plan, pre, post) ==
    LET po == Owners(post)
        pr == Owners(pre)
    IN Len(po) # Len(plan.src) \/
       \A j \in DOMAIN po :
          LET s == plan.src[j] IN (s = 0 \/ s \in plan.loose) \/ po[j] = pr[s]

(* an element of which nothing is left is gone, and its handle with it;
   `except`: handles with a rule of their own *)
GoneIsGone(plan, pre, post, except) ==
    LET left == {plan.src[j] : j \in DOMAIN plan.src}
        st == Starts(pre)
        ids == Ids(post)
    IN \A i \in DOMAIN pre :
          \/ Id(pre[i]) \in except
          \/ \E s \in st[i] + 1..st[i + 1] : s \in left
          \/ Id(pre[i]) \notin ids

Fresh(pre, post) == Ids(post) \ Ids(pre)
(* a handle that appears was never used before *)
FreshIsNew(mx, pre, post) == \A id \in Fresh(pre, post) : id > mx

(* every new element is reported *)
NewReported(pre, post, told) == Fresh(pre, post) \subseteq told
(* and nothing that never was in the tree; `passing`: the operation may
   create an element and drop it again *)
ReportTrue(mx, pre, post, all, told, passing) ==
    \A id \in told : \/ id \in Ids(post) \/ id \in all
                     \/ (passing /\ id > mx)

(* the returned cursor addresses the first new unit *)
AtFirstUnit(post, r, g) ==
    LET i == Where(post, r[1])
    IN /\ i # 0
       /\ GapOf(post, r) = g
       /\ IF IsMarker(It(post[i])) THEN r[2] = 0 ELSE r[2] < Len(It(post[i]))

(* --------------------------- well-formedness -------------------------- *)
NoEmptyElement(post) == \A i \in DOMAIN post : It(post[i]) # <<>>
ElementSums(ty, post) == \A i \in DOMAIN post : Sm(post[i]) = Measure(ty, It(post[i]))

(* Each level's nodes divide the level below among themselves. *)
LevelCounts(nodes, below) == SumOf([i \in DOMAIN nodes |-> nodes[i][1]]) = below
LevelSums(ty, nodes, sums) ==
    LET st == Running([i \in DOMAIN nodes |-> nodes[i][1]])
    IN \A i \in DOMAIN nodes :
         st[i + 1] <= Len(sums) =>
         <<nodes[i][2], nodes[i][3]>> =
            FoldLeft(LAMBDA a, b : Join(ty, a, b), <<0, 0>>,
                     SubSeq(sums, st[i] + 1, st[i + 1]))
SumsBelow(T, k) ==
    IF k = 1 THEN [i \in DOMAIN T.lf |-> Sm(T.lf[i])]
    ELSE [i \in DOMAIN T.lv[k - 1] |-> <<T.lv[k - 1][i][2], T.lv[k - 1][i][3]>>]

CountsRight(T) ==
    /\ Len(T.lv) >= 1
    /\ Len(T.lv[Len(T.lv)]) = 1
    /\ \A k \in DOMAIN T.lv :
         LevelCounts(T.lv[k], IF k = 1 THEN Len(T.lf) ELSE Len(T.lv[k - 1]))
RoomEverywhere(T, fan) ==
    \A k \in DOMAIN T.lv : \A i \in DOMAIN T.lv[k] :
        /\ T.lv[k][i][1] < fan
        /\ T.lv[k][i][1] >= 1 \/ (T.lf = <<>> /\ Len(T.lv) = 1)
Internal(T) == SumOf([k \in DOMAIN T.lv |-> Len(T.lv[k])])
NoLeak(T) == T.nl = Len(T.lf) + Internal(T)
NodeSums(ty, T) == \A k \in DOMAIN T.lv : LevelSums(ty, T.lv[k], SumsBelow(T, k))
RootSum(T) == LET r == T.lv[Len(T.lv)][1] IN T.rc = <<r[2], r[3]>>

(* ------------------------------- balance ------------------------------ *)
Height(T) == Len(T.lv)
(* a single chain above the elements is collapsed *)
Collapsed(T) == Height(T) > 1 => T.lv[Height(T)][1][1] >= 2

(* The number of children an inner node can be counted on to have, apart
   from the nodes on a path from the root: a node is split into halves when
   it is full, and an update that adds two elements splits one short of it. *)
Fill(fan) == fan \div 2 - 1
(* the fewest elements a tree must once have held to reach a height *)
RECURSIVE MinPeak(_, _)
MinPeak(fan, h) ==
    IF h = 1 THEN 0 ELSE IF h = 2 THEN fan - 1 ELSE Fill(fan) * MinPeak(fan, h - 1)
HeightBounded(T, fan) == T.pk >= MinPeak(fan, Height(T))
SpaceBounded(T, fan) ==
    Internal(T) * (Fill(fan) - 1) <= Len(T.lf) + (2 * Height(T) + 2) * (Fill(fan) - 1)
(* nodes other than the root with less than half the children they can have *)
SparseNodes(T, fan) ==
    SumOf([k \in 1..Height(T) - 1 |->
             Cardinality({i \in DOMAIN T.lv[k] : T.lv[k][i][1] < fan \div 2})])
(* removing one element leaves no new sparse node behind *)
Refilled(old, new, fan, slack) == SparseNodes(new, fan) <= SparseNodes(old, fan) + slack

(* The inner nodes above an element, bottom up, as <<index, children>>. *)
PathAbove(T, i) ==
    FoldLeft(LAMBDA acc, k :
                LET run == Running([j \in DOMAIN T.lv[k] |-> T.lv[k][j][1]])
                    at == IF k = 1 THEN i ELSE acc[k - 1][1]
                    j == FirstOr(1, Len(T.lv[k]), LAMBDA q : run[q + 1] >= at, 0)
                IN Append(acc, <<j, T.lv[k][j][1]>>),
             <<>>, [k \in 1..Height(T) |-> k])
(* Where a stretch between elements g and g + 1 was taken out, the nodes that
   border the cut are merged or refilled; one on each side may be left. *)
SealedAt(T, g, fan) ==
    LET a == PathAbove(T, g)
        b == PathAbove(T, g + 1)
        apart == {k \in 1..Height(T) - 1 : a[k][1] # b[k][1]}
    IN /\ Cardinality({k \in apart : a[k][2] < fan \div 2}) <= 1
       /\ Cardinality({k \in apart : b[k][2] < fan \div 2}) <= 1

EmptyTree == [lf |-> <<>>, lv |-> <<<<<<0, 0, 0>>>>>>, rc |-> <<0, 0>>, nl |-> 1,
              mx |-> -1, pk |-> 0]

(* ------------------------------ queries ------------------------------- *)
(* Everything below is answered from the elements (and, where subtrees are
   reported, from the levels).  V is a "view": the tree with its running
   totals, computed once. *)
View(T) == [lf |-> T.lf, lv |-> T.lv, rc |-> T.rc,
            us |-> UStarts(T.lf), st |-> Starts(T.lf),
            xs |-> Running([i \in DOMAIN T.lf |-> Sm(T.lf[i])[2]]),
            n |-> Len(T.lf),
            (* first element of each level-1 node *)
            nd |-> Running([i \in DOMAIN T.lv[1] |-> T.lv[1][i][1]])]
Total(V) == V.us[V.n + 1]
NodeOfLeaf(V, i) == FirstOr(1, Len(V.nd) - 1, LAMBDA k : V.nd[k + 1] >= i, 0)
IdxOf(V, id) == Where(V.lf, id)
NoCursor == <<-1, 0>>
UnitsBefore(V, c) == V.us[IdxOf(V, c[1])] + c[2]

(* position lookup: <<handle, offset, found>> *)
LookAnswer(V, pos) ==
    LET r == LookupIn(V.lf, V.us, pos)
    IN IF r[1] = 0 THEN <<-1, 0, 0>>
       ELSE <<Id(V.lf[r[1]]), r[2], IF r[3] THEN 1 ELSE 0>>
(* where the finder ended up: slot in the lowest node, and that node
   (-1: the root itself) *)
LookPlace(V, pos) ==
    LET r == LookupIn(V.lf, V.us, pos)
        k == NodeOfLeaf(V, r[1])
    IN IF r[1] = 0 THEN <<0, -1>>
       ELSE <<r[1] - V.nd[k] - 1, IF Len(V.lv) = 1 THEN -1 ELSE k - 1>>

(* lookup by the second measure (additive trees only) *)
SumAnswer(V, x) ==
    LET i == FirstOr(1, V.n, LAMBDA j : V.xs[j + 1] > x, V.n)
        it == It(V.lf[i])
        run == Running([q \in DOMAIN it |-> Weight(it[q])])
        off == FirstOr(1, Len(it), LAMBDA q : run[q + 1] > x - V.xs[i], Len(it) + 1) - 1
    IN IF V.n = 0 THEN <<NoCursor, 0>>
       ELSE <<<<Id(V.lf[i]), off>>, IF x < V.xs[V.n + 1] THEN 1 ELSE 0>>

(* the nodes from the root down to an element, given the slot to take at
   each: indices in their levels *)
Descend(V, slots) ==
    LET h == Len(V.lv)
        first(k, i) == SumOf([j \in 1..i - 1 |-> V.lv[k][j][1]])
        step(acc, d) ==
            LET k == h - d + 1      \* level of the current node
                c == V.lv[k][acc[1]][1]
                s == IF d <= Len(slots) THEN slots[d] ELSE 0
            IN <<first(k, acc[1]) + Min2(s, c - 1) + 1>>
    IN FoldLeft(step, <<1>>, Upto(h))[1]
(* a lookup whose steps were told to report found or missing *)
PathAnswer(V, slots, founds, off, f) ==
    IF V.n = 0 THEN <<NoCursor, 0>>
    ELSE <<<<Id(V.lf[Descend(V, slots)]), off>>,
           IF f = 1 /\ \A d \in 1..Len(V.lv) : (d > Len(founds) \/ founds[d] = 1)
           THEN 1 ELSE 0>>

(* order of cursors *)
CompareAnswer(V, a, b) ==
    LET i == IdxOf(V, a[1])
        j == IdxOf(V, b[1])
    IN IF i < j \/ (i = j /\ a[2] < b[2]) THEN -1
       ELSE IF i = j /\ a[2] = b[2] THEN 0 ELSE 1

NextAnswer(V, c) ==
    LET i == IdxOf(V, c[1]) IN IF i = V.n THEN NoCursor ELSE <<Id(V.lf[i + 1]), 0>>
PrevAnswer(V, c) ==
    LET i == IdxOf(V, c[1]) IN IF i = 1 THEN NoCursor ELSE <<Id(V.lf[i - 1]), 0>>
PreferLeftAnswer(V, c) ==
    LET i == IdxOf(V, c[1])
    IN IF c[2] # 0 THEN c
       ELSE IF i = 1 THEN NoCursor
       ELSE <<Id(V.lf[i - 1]), ULen(It(V.lf[i - 1]))>>
PreferRightAnswer(V, c) ==
    LET i == IdxOf(V, c[1])
    IN IF c[2] = 0 \/ c[2] < ULen(It(V.lf[i])) THEN c
       ELSE NextAnswer(V, c)
(* one unit of content forward *)
ShiftAnswer(V, c) ==
    LET p == UnitsBefore(V, c) + 1
        r == LookupIn(V.lf, V.us, p)
    IN IF p >= Total(V) THEN NoCursor ELSE <<Id(V.lf[r[1]]), r[2]>>

EndsAnswer(V) ==
    IF V.n = 0 THEN <<-1, -1, NoCursor, NoCursor, 1, 1, 0>>
    ELSE <<Id(V.lf[1]), Id(V.lf[V.n]), <<Id(V.lf[1]), 0>>,
           <<Id(V.lf[V.n]), ULen(It(V.lf[V.n]))>>, 0, Len(V.lv),
           \* everything but the root is linked from one node
           SumOf([l \in DOMAIN V.lv |-> Len(V.lv[l])]) - 1 + V.n>>

IterAnswer(V) == [i \in DOMAIN V.lf |-> It(V.lf[i])]
(* kind 0: the end is excluded, 1: included, 2: no end given *)
IterRangeAnswer(V, a, kind, b) ==
    LET i == IF a = NoCursor THEN 1 ELSE IdxOf(V, a[1])
        so == IF a = NoCursor THEN 0 ELSE a[2]
        j == IF kind = 2 THEN V.n ELSE IdxOf(V, b[1])
        eo == IF kind = 2 THEN ULen(It(V.lf[V.n])) ELSE b[2]
        last == IF kind = 0 /\ eo = 0 THEN j - 1 ELSE j
    IN IF V.n = 0 THEN <<>>
       ELSE [q \in 1..(IF last < i THEN 0 ELSE last - i + 1) |->
               LET k == i + q - 1
               IN <<<<Id(V.lf[k]), 0>>, It(V.lf[k]),
                    IF k = i THEN so ELSE -1, IF k = j THEN eo ELSE -1>>]

(* filters *)
Accept(kind, k, c) ==
    CASE kind = 0 -> c[2] >= k
      [] kind = 1 -> c[1] <= k
      [] kind = 2 -> (c[1] + c[2]) % 3 # k % 3
      [] kind = 3 -> c[1] > 0
      [] OTHER    -> TRUE
(* Which of the nodes of level k (0: elements) are entered: those accepted
   themselves whose parent is entered.  The root always is. *)
ParentOf(V, k, i) ==  \* index at level k + 1 of the parent of item i of level k
    LET run == Running([j \in DOMAIN V.lv[k + 1] |-> V.lv[k + 1][j][1]])
    IN FirstOr(1, Len(V.lv[k + 1]), LAMBDA j : run[j + 1] >= i, 0)
SumAt(V, k, i) ==
    IF k = 0 THEN Sm(V.lf[i]) ELSE <<V.lv[k][i][2], V.lv[k][i][3]>>
SizeAt(V, k) == IF k = 0 THEN V.n ELSE Len(V.lv[k])
ChildrenOf(V, k, S) ==  \* the items of level k whose parent (level k + 1) is in S
    LET run == Running([j \in DOMAIN V.lv[k + 1] |-> V.lv[k + 1][j][1]])
    IN UNION {run[j] + 1..run[j + 1] : j \in S}
(* <<offered indices, entered indices>> for each level from the top *)
EnteredAt(V, kind, p) ==
    LET h == Len(V.lv)
        step(acc, d) ==
            LET k == h - d      \* level of the children looked at
                off == ChildrenOf(V, k, acc[Len(acc)].ent)
            IN Append(acc, [k |-> k, off |-> off,
                            ent |-> {i \in off : Accept(kind, p, SumAt(V, k, i))}])
    IN FoldLeft(step, <<[k |-> h, off |-> {}, ent |-> {1}]>>, Upto(h))
FilteredLeaves(V, kind, p) ==
    LET e == EnteredAt(V, kind, p) IN e[Len(e)].ent
FilterAnswer(V, kind, p) ==
    LET s == Ascending(FilteredLeaves(V, kind, p))
    IN [q \in DOMAIN s |-> <<V.us[s[q]], V.xs[s[q]], It(V.lf[s[q]])>>]
Offered(V, kind, p) ==
    LET e == EnteredAt(V, kind, p)
    IN FlattenSeq([d \in DOMAIN e |->
         LET s == Ascending(e[d].off) IN [q \in DOMAIN s |-> SumAt(V, e[d].k, s[q])]])

(* the slots on the way from the root to element i: how many siblings lie
   to the left at each level *)
SlotsLeft(V, i) ==
    LET h == Len(V.lv)
        step(acc, k) ==     \* k: level of the parent
            LET run == Running([j \in DOMAIN V.lv[k] |-> V.lv[k][j][1]])
                p == FirstOr(1, Len(V.lv[k]), LAMBDA j : run[j + 1] >= acc[1], 0)
            IN <<p, acc[2] + (acc[1] - run[p] - 1)>>
    IN FoldLeft(step, <<i, 0>>, Upto(h))[2]
VisitRight(ty, V, c, caches, this) ==
    LET i == IdxOf(V, c[1])
        pre == FoldLeft(LAMBDA a, b : Join(ty, a, Sm(b)), <<0, 0>>, SubSeq(V.lf, 1, i - 1))
    IN /\ this = <<<<It(V.lf[i]), c[2]>>>>
       /\ FoldLeft(LAMBDA a, b : Join(ty, a, b), <<0, 0>>, caches) = pre
       /\ Len(caches) <= SlotsLeft(V, i)

HandlesAnswer(V) == {<<Id(V.lf[i]), It(V.lf[i])>> : i \in DOMAIN V.lf}
=============================================================================
