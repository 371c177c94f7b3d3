---------------------------- MODULE PiecesTrace -----------------------------
(* Do the recorded calls of the slicing helpers and of the gap buffer do     *)
(* what Pieces says?                                                         *)
EXTENDS Pieces, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next line
          buf,  \* the gap buffer's bytes
          cap   \* and their greatest number
vars == <<i, buf, cap>>

Init == i = 1 /\ buf = <<>> /\ cap = 0
If(b, c) == IF b THEN {} ELSE {c}
E == Trace[i]
Report(clauses) == \A c \in clauses : PrintT(<<"REJECT", i, E.op, c>>)
Step == i' = i + 1

Reset ==
    /\ i <= Len(Trace) /\ E.op = "reset" /\ Step
    /\ buf' = <<>> /\ cap' = E.cap

Lens(ss) == [q \in DOMAIN ss |-> Len(ss[q])]
Left(e, s) == If(e.left = s, "left") \cup If(e.n = Len(s), "len")
Got(e, ss) == If(e.r = ss, "pieces") \cup If(e.rn = Lens(ss), "len")

(* ------------------------- the slicing helpers ------------------------- *)
SliceClauses(e) ==
    Left(e, e.old) \cup Got(e, <<Slice(e.old, e.lo, e.hi)>>)
SliceInClauses(e) == Left(e, Slice(e.old, e.lo, e.hi))
SplitClauses(e) ==
    Left(e, Before(e.old, Lo(e.lo))) \cup Got(e, <<After(e.old, Lo(e.lo))>>)
UpdateClauses(e) ==
    LET ps == UpdatePieces(e.old, e.lo, e.hi, e.w)
        a == Lo(e.lo)
        b == Hi(e.hi, e.old)
    IN Left(e, ps[1]) \cup Got(e, Tail(ps))
       \cup If(e.given = (IF a >= b THEN <<>> ELSE <<SubSeq(e.old, a + 1, b)>>), "calls")

Helpers == {"slice", "slicein", "split", "update"}
Help ==
    /\ i <= Len(Trace) /\ E.op \in Helpers /\ "pn" \notin DOMAIN E /\ Step
    /\ Report(CASE E.op = "slice" -> SliceClauses(E)
                [] E.op = "slicein" -> SliceInClauses(E)
                [] E.op = "split" -> SplitClauses(E)
                [] E.op = "update" -> UpdateClauses(E))
    /\ UNCHANGED <<buf, cap>>

(* ---------------------------- the gap buffer --------------------------- *)
One(b) == IF b THEN 1 ELSE 0
Judge(e, want, ok, rest) ==
    /\ Report(If(e.now = want, "content") \cup If(e.n = Len(want), "len")
              \cup If(e.ok = One(ok), "ret") \cup If(e.rest = rest, "pieces"))
    /\ buf' = e.now /\ UNCHANGED cap

Gap(op) == i <= Len(Trace) /\ E.op = op /\ "pn" \notin DOMAIN E /\ Step
GIns == Gap("gins") /\ Judge(E, GapInsert(buf, E.pos, E.b, cap), Fits(buf, Len(E.b), cap), <<>>)
GPair ==
    /\ Gap("gpair")
    /\ LET b == E.b \o E.b2
       IN Judge(E, GapInsert(buf, E.pos, b, cap), Fits(buf, Len(b), cap), <<>>)
GDel == Gap("gdel") /\ Judge(E, DeleteRange(buf, E.lo, E.hi), TRUE, <<>>)
GMove == Gap("gmove") /\ Judge(E, buf, TRUE, <<>>)
GSplit == Gap("gsplit") /\ Judge(E, Before(buf, E.pos), TRUE, After(buf, E.pos))
GSlice == Gap("gslice") /\ Judge(E, buf, TRUE, Slice(buf, E.lo, E.hi))
GCut == Gap("gcut") /\ Judge(E, Slice(buf, E.lo, E.hi), TRUE, <<>>)
GCan == Gap("gcan") /\ Judge(E, buf, Fits(buf, Len(E.b), cap), <<>>)
GRight == Gap("gright") /\ Judge(E, buf \o E.b, TRUE, <<>>)
GLeft == Gap("gleft") /\ Judge(E, E.b \o buf, TRUE, <<>>)
GTry == Gap("gtry") /\ Judge(E, GapInsert(buf, E.pos, E.b, cap), Fits(buf, Len(E.b), cap), <<>>)

Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED <<buf, cap>>

Next == Reset \/ Help \/ GIns \/ GPair \/ GDel \/ GMove \/ GSplit \/ GSlice \/ GCut \/ GCan \/ GRight \/ GLeft \/ GTry \/ Failed
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
