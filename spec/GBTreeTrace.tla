---------------------------- MODULE GBTreeTrace -----------------------------
(***************************************************************************)
(* Is a recorded history of the real tree a behaviour of GBTree?           *)
(*                                                                         *)
(* Every line of the trace is one call, with its arguments, its results    *)
(* and the state of the tree afterwards (as the difference to the state    *)
(* before).  For every call the clauses of the specification it violates   *)
(* are printed; the state is then taken from the log, so that the rest of  *)
(* the history is judged too.                                              *)
(***************************************************************************)
EXTENDS GBTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* the clauses of interest ("" : all) only select what is printed *)

VARIABLES i,      \* next line
          trees,  \* <<tree 0, tree 1>>
          cfg     \* the episode's parameters

vars == <<i, trees, cfg>>

NoTree == [EmptyTree EXCEPT !.nl = -1]
Init ==
    /\ i = 1
    /\ trees = <<EmptyTree, NoTree>>
    /\ cfg = [ty |-> "sum", md |-> "Atom", fan |-> 12, cap |-> 4]

If(b, c) == IF b THEN {} ELSE {c}
Rng(s) == {s[q] : q \in DOMAIN s}

(* ------------------------------ mutations ------------------------------ *)
Pre(e, T) == SubSeq(T.lf, e.p + 1, Len(T.lf) - e.s)
PostLeaves(e, T) ==
    SubSeq(T.lf, 1, e.p) \o e.m \o SubSeq(T.lf, Len(T.lf) - e.s + 1, Len(T.lf))

(* the window's index of an element given by its index in the tree *)
Told(e) ==
    (IF e.op \in {"push", "prepend", "ins", "insq", "ups"}
     THEN {e.r[1]} \ {-1} ELSE {})
    \cup (IF e.op \in {"ins", "insq", "upd", "upl", "ups", "uplr"} THEN Rng(e.sp) ELSE {})

NewMax(e, T, base) ==
    LET ids == Ids(e.m) \cup Told(e) \cup {base}
    IN CHOOSE x \in ids : \A y \in ids : y <= x

PostTree(e, T, base) ==
    LET ls == PostLeaves(e, T)
    IN [lf |-> ls, lv |-> e.lv, rc |-> e.rc, nl |-> e.nl,
        mx |-> NewMax(e, T, base),
        pk |-> Max2(IF e.op \in {"clear", "from"} THEN 0 ELSE T.pk, Len(ls))]

(* what must hold of every tree after every call *)
TreeClauses(e, T, N) ==
    If(ElementSums(cfg.ty, e.m), "elementsum")
    \cup (IF ~CountsRight(N) THEN {"counts"}
          ELSE If(NodeSums(cfg.ty, N), "nodesum") \cup If(RootSum(N), "rootsum")
               \cup If(RoomEverywhere(N, cfg.fan), "room")
               \cup If(NoLeak(N), "leak"))
    \cup If(e.bad = <<>>, "links")
    \cup If(e.ck = 1, "check")
    \cup If(NoEmptyElement(e.m), "emptyelement")
    \cup If(Collapsed(N), "collapsed")
    \cup If(HeightBounded(N, cfg.fan), "height")
    \cup If(SpaceBounded(N, cfg.fan), "space")
    \cup (CASE e.op = "rm" \/ (e.op = "upl" /\ e.r = 0) -> If(Refilled(T, N, cfg.fan, 0), "refill")
            [] e.op \in {"drain", "drainq", "upd"} \/ (e.op = "ups" /\ e.r[1] = -1)
                 -> If(Refilled(T, N, cfg.fan, Height(T)), "refill")
            [] OTHER -> {})

(* what must hold for the content and the handles, given the plan *)
PlanClauses(e, T, W, plan, except) ==
    If(ContentAsPlanned(plan, e.m), "content")
    \cup If(HandlesKept(plan, W, e.m), "owner")
    \cup If(GoneIsGone(plan, W, e.m, except), "gone")
    \cup If(FreshIsNew(T.mx, W, e.m), "reused")

ReportClauses(e, T, W, passing) ==
    If(NewReported(W, e.m, Told(e)), "unreported")
    \cup If(ReportTrue(T.mx, W, e.m, Ids(T.lf), Told(e), passing), "phantom")

Contents(W, more) == [q \in DOMAIN W |-> It(W[q])] \o more
MergeClause(e, W, more) ==
    If(MergedRightly(cfg.md, cfg.cap, e.m, Contents(W, more)), "merge")

SpliceAt(e, T, g) ==
    LET W == Pre(e, T)
    IN PlanClauses(e, T, W, InsertPlan(W, g, e.e), {})
       \cup If(AtFirstUnit(e.m, e.r, g), "ret")
       \cup ReportClauses(e, T, W, FALSE)
       \cup MergeClause(e, W, <<e.e>>)

Push(e, T) == SpliceAt(e, T, Len(Items(Pre(e, T))))
Prepend(e, T) == SpliceAt(e, T, 0)
Ins(e, T) == SpliceAt(e, T, GapOf(Pre(e, T), e.c))
InsQ(e, T) ==
    IF T.lf = <<>> THEN SpliceAt(e, T, 0)
    ELSE SpliceAt(e, T, GapOf(Pre(e, T), LookupCursor(T.lf, e.pos)))

InsMany(e, T) ==
    LET W == Pre(e, T)
        g == IF e.c[1] = -1 THEN Len(Items(W)) ELSE GapOf(W, e.c)
    IN PlanClauses(e, T, W, InsertPlan(W, g, FlattenSeq(e.es)), {})
       \cup MergeClause(e, W, e.es)

From(e, T) ==
    LET post == PostLeaves(e, T)
    IN If(Items(post) = FlattenSeq(e.es), "content")
       \cup If(MergedRightly(cfg.md, cfg.cap, post, e.es), "merge")
       \cup If(Cardinality(Ids(post)) = Len(post), "owner")

Clear(e, T) == If(PostLeaves(e, T) = <<>>, "content")

Rm(e, T) ==
    LET W == Pre(e, T)
        q == Where(W, e.c[1])
        st == Starts(W)
    IN IF q = 0
       THEN If(e.r = <<>>, "ret") \cup PlanClauses(e, T, W, KeepPlan(W), {})
       ELSE If(e.r = <<It(W[q])>>, "ret")
            \cup PlanClauses(e, T, W, DeletePlan(W, st[q], st[q + 1]), {})

(* after a drain with something left on both sides *)
Sealed(e, N, a, cut) ==
    LET q == Cardinality({j \in DOMAIN e.m : Starts(e.m)[j + 1] <= a})
        g == e.p + q
    IN (cut /\ 0 < g /\ g < Len(N.lf)) => SealedAt(N, g, cfg.fan)

DrainBetween(e, T, W, a, b) ==
    LET gone == SubSeq(Items(W), a + 1, b)
        got == FlattenSeq(e.r)
    IN PlanClauses(e, T, W, DeletePlan(W, a, b), {})
       \cup If(IF e.end = 1 THEN got = gone
               ELSE Len(e.r) = e.k /\ IsPrefix(got, gone), "ret")
       \cup (LET N == PostTree(e, T, T.mx)
             IN IF CountsRight(N) /\ Items(e.m) = Before(Items(W), a) \o After(Items(W), b)
                THEN If(Sealed(e, N, a, gone # <<>>), "refill") ELSE {})

Drain(e, T) ==
    LET W == Pre(e, T) IN DrainBetween(e, T, W, GapOf(W, e.c), GapOf(W, e.c2))
DrainQ(e, T) ==
    LET W == Pre(e, T)
    IN IF T.lf = <<>> THEN DrainBetween(e, T, W, 0, 0)
       ELSE DrainBetween(e, T, W, GapOf(W, LookupCursor(T.lf, e.pos)),
                         GapOf(W, LookupCursor(T.lf, e.pos2)))

Upd(e, T) ==
    LET W == Pre(e, T)
        a == GapOf(W, e.c)
        b == GapOf(W, e.c2)
    IN PlanClauses(e, T, W, UpdatePlan(W, a, b, e.k, e.x), {})
       \cup If(e.calls = Len(PiecesBetween(W, a, b)), "calls")
       \cup ReportClauses(e, T, W, e.k \in {2, 5, 6})

(* the handle of an updated element stays with the first thing left of it *)
HandleStays(W, q, h, rest, post) ==
    IF rest = <<>> THEN Where(post, h) = 0
    ELSE LET po == Owners(post) g == Starts(W)[q] + 1
         IN g \in DOMAIN po /\ po[g] = h

Upl(e, T) ==
    LET W == Pre(e, T)
        q == Where(W, e.h)
        pieces == <<e.fl>> \o e.f1 \o e.f2
        rest == FlattenSeq(pieces)
    IN PlanClauses(e, T, W, ReplacePlan(W, q, pieces), {e.h})
       \cup If(e.r = (IF rest = <<>> THEN 0 ELSE 1), "ret")
       \cup If(HandleStays(W, q, e.h, rest, e.m), "owner")
       \cup ReportClauses(e, T, W, FALSE)
       \cup MergeClause(e, W, pieces)

Ups(e, T) ==
    LET W == Pre(e, T)
        r == Lookup(T.lf, e.pos)
        c == LookupCursor(T.lf, e.pos)
        q == r[1] - e.p
        pieces == <<e.fl>> \o e.f1
        rest == FlattenSeq(pieces)
    IN If(e.q = c /\ e.qf = (IF r[3] THEN 1 ELSE 0) /\ e.saw = It(W[q]), "shown")
       \cup (IF e.dec = 1
             THEN PlanClauses(e, T, W, KeepPlan(W), {}) \cup If(e.r = c, "ret")
             ELSE PlanClauses(e, T, W, ReplacePlan(W, q, pieces), {c[1]})
                  \cup If(e.r = (IF rest = <<>> THEN NoCursor ELSE c), "ret")
                  \cup If(HandleStays(W, q, c[1], rest, e.m), "owner")
                  \cup MergeClause(e, W, pieces))
       \cup ReportClauses(e, T, W, FALSE)

Uplr(e, T) ==
    LET W == Pre(e, T)
    IN PlanClauses(e, T, W, RangesPlan(W, e.v), {})
       \cup ReportClauses(e, T, W, FALSE)

Gem(e, T) ==
    LET W == Pre(e, T)
        q == Where(W, e.h)
        n == Len(It(W[q]))
    IN PlanClauses(e, T, W, RangesPlan(W, <<<<e.h, 0, n, e.x>>>>), {})

Ucf(e, T) ==
    LET W == Pre(e, T)
        V == View(T)
        S == FilteredLeaves(V, e.fk, e.fp)
        s == Ascending(S)
        f == [q \in DOMAIN W |-> IF q \in S THEN AddAll(It(W[q]), e.x) ELSE It(W[q])]
        n == Len(Items(W))
    IN PlanClauses(e, T, W, Plan(FlattenSeq(f), Upto(n), {}), {})
       \cup If(SameBag(e.r, [q \in DOMAIN s |-> It(T.lf[s[q]])]), "visited")
       \cup If(SameBag(e.off, Offered(V, e.fk, e.fp)), "offered")

Mutations == {"push", "prepend", "ins", "insq", "insm", "from", "clear", "rm", "drain",
              "drainq", "upd", "upl", "ups", "uplr", "gem", "ucf"}
OpClauses(e, T) ==
    CASE e.op = "push" -> Push(e, T)
      [] e.op = "prepend" -> Prepend(e, T)
      [] e.op = "ins" -> Ins(e, T)
      [] e.op = "insq" -> InsQ(e, T)
      [] e.op = "insm" -> InsMany(e, T)
      [] e.op = "from" -> From(e, T)
      [] e.op = "clear" -> Clear(e, T)
      [] e.op = "rm" -> Rm(e, T)
      [] e.op = "drain" -> Drain(e, T)
      [] e.op = "drainq" -> DrainQ(e, T)
      [] e.op = "upd" -> Upd(e, T)
      [] e.op = "upl" -> Upl(e, T)
      [] e.op = "ups" -> Ups(e, T)
      [] e.op = "uplr" -> Uplr(e, T)
      [] e.op = "gem" -> Gem(e, T)
      [] e.op = "ucf" -> Ucf(e, T)

(* ------------------------------- queries ------------------------------- *)
All(s, P(_)) == \A q \in DOMAIN s : P(s[q])
QueryClause(V, k, s) ==
    CASE k = "lk" -> If(All(s, LAMBDA a : <<a[2], a[3], a[4]>> = LookAnswer(V, a[1]) /\ a[7] = 1), "lk")
                     \cup If(All(s, LAMBDA a : <<a[5], a[6]>> = LookPlace(V, a[1])), "lkplace")
      [] k = "rg" -> If(All(s, LAMBDA a :
                        LET x == LookAnswer(V, a[1]) y == LookAnswer(V, a[2])
                        IN /\ a[3] = <<x[1], x[2]>> /\ a[4] = x[3]
                           /\ a[5] = <<y[1], y[2]>> /\ a[6] = y[3]), "rg")
      [] k = "sm" -> If(cfg.ty = "max" \/ All(s, LAMBDA a : <<a[2], a[3]>> = SumAnswer(V, a[1])), "sm")
      [] k = "pq" -> If(All(s, LAMBDA a : <<a[5], a[6]>> = PathAnswer(V, a[1], a[2], a[3], a[4])), "pq")
      [] k = "cm" -> If(All(s, LAMBDA a : a[3] = CompareAnswer(V, a[1], a[2])), "cm")
      [] k = "nx" -> If(All(s, LAMBDA a : a[2] = NextAnswer(V, a[1])), "nx")
      [] k = "pv" -> If(All(s, LAMBDA a : a[2] = PrevAnswer(V, a[1])), "pv")
      [] k = "pl" -> If(All(s, LAMBDA a : a[2] = PreferLeftAnswer(V, a[1])), "pl")
      [] k = "pr" -> If(All(s, LAMBDA a : a[2] = PreferRightAnswer(V, a[1])), "pr")
      [] k = "sh" -> If(All(s, LAMBDA a : a[2] = ShiftAnswer(V, a[1])), "sh")
      [] k = "en" -> If(All(s, LAMBDA a : a = EndsAnswer(V)), "en")
      [] k = "it" -> If(All(s, LAMBDA a : a = IterAnswer(V)), "it")
      [] k = "ir" -> If(All(s, LAMBDA a : a[4] = IterRangeAnswer(V, a[1], a[2], a[3])), "ir")
      [] k = "wf" -> If(All(s, LAMBDA a :
                        LET x == FilterAnswer(V, a[1], a[2])
                        IN /\ Len(a[3]) = Len(x)
                           /\ \A q \in DOMAIN x :
                                /\ a[3][q][1] = x[q][1]
                                /\ cfg.ty = "max" \/ a[3][q][2] = x[q][2]
                                /\ a[3][q][3] = x[q][3]), "wf")
      [] k = "vp" -> If(All(s, LAMBDA a : VisitRight(cfg.ty, V, a[1], a[2], a[3])), "vp")
      [] k = "hd" -> If(All(s, LAMBDA a : Rng(a) = HandlesAnswer(V) /\ Len(a) = V.n), "hd")

(* ------------------------------- the trace ----------------------------- *)
E == Trace[i]
Report(clauses) ==
    \A c \in clauses : PrintT(<<"REJECT", i, E.op, c>>)
Is(op) == i <= Len(Trace) /\ E.op = op
Step == i' = i + 1

Reset ==
    /\ Is("reset") /\ Step
    /\ trees' = <<EmptyTree, NoTree>>
    /\ cfg' = [ty |-> E.ty, md |-> E.md, fan |-> E.fan, cap |-> E.cap]

(* a call that panicked or did not return: nothing allows that *)
Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ PrintT(<<"REJECT", i, E.op, "failed">>)
    /\ UNCHANGED <<trees, cfg>>

Mutate ==
    /\ i <= Len(Trace) /\ E.op \in Mutations /\ "pn" \notin DOMAIN E /\ Step
    /\ LET T == trees[E.t + 1]
           base == IF E.op \in {"clear", "from"} THEN -1 ELSE T.mx
           N == PostTree(E, T, base)
       IN /\ Report(OpClauses(E, T) \cup TreeClauses(E, T, N))
          /\ trees' = [trees EXCEPT ![E.t + 1] = N]
    /\ UNCHANGED cfg

Clone ==
    /\ Is("clone") /\ "pn" \notin DOMAIN E /\ Step
    /\ LET T == trees[E.t + 1]
           N == [T EXCEPT !.lf = PostLeaves(E, T), !.lv = E.lv, !.rc = E.rc, !.nl = E.nl]
       IN /\ Report(If(N = T /\ E.bad = <<>> /\ E.ck = 1, "clone"))
          /\ trees' = [trees EXCEPT ![E.u + 1] = N]
    /\ UNCHANGED cfg

(* the other tree, after an operation on this one *)
Observe ==
    /\ Is("obs") /\ "pn" \notin DOMAIN E /\ Step
    /\ LET T == trees[E.t + 1]
           N == [T EXCEPT !.lf = PostLeaves(E, T), !.lv = E.lv, !.rc = E.rc, !.nl = E.nl]
       IN /\ Report(If(N = T /\ E.bad = <<>>, "independent"))
          /\ trees' = [trees EXCEPT ![E.t + 1] = N]
    /\ UNCHANGED cfg

Query ==
    /\ Is("q") /\ "pn" \notin DOMAIN E /\ Step
    /\ LET V == View(trees[E.t + 1])
       IN Report(UNION {QueryClause(V, E.ks[k], E[E.ks[k]]) : k \in DOMAIN E.ks})
    /\ UNCHANGED <<trees, cfg>>

Next == Reset \/ Failed \/ Mutate \/ Clone \/ Observe \/ Query
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
