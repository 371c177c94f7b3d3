-------------------------- MODULE OrdStretchesTrace -------------------------
(* Is a recorded history of a very large map or set a behaviour of the sorted *)
(* map?  Its content is a sequence of stretches <<lo, hi, v>>: the keys lo,   *)
(* lo+1, ..., hi, all with value v.                                           *)
EXTENDS Stretches, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next line
          kv    \* the map
vars == <<i, kv>>

Init == i = 1 /\ kv = <<>>
If(b, x) == IF b THEN {} ELSE {x}
E == Trace[i]
Report(clauses) == \A x \in clauses : PrintT(<<"REJECT", i, E.op, x>>)
Step == i' = i + 1

Between(m, lo, hi) ==      \* the pairs with a key in lo..hi
    LET cut == TLCEval([q \in DOMAIN m |-> <<Max2(m[q][1], lo), Min2(m[q][2], hi), m[q][3]>>])
    IN SelectSeq(cut, LAMBDA r : r[1] <= r[2])
Below(m, k) == IF m = <<>> THEN <<>> ELSE Between(m, Min2(m[1][1], k - 1), k - 1)
Above(m, k) == IF m = <<>> THEN <<>> ELSE Between(m, k + 1, Max2(m[Len(m)][2], k + 1))
With(m, lo, hi, v) == Norm(Below(m, lo) \o <<<<lo, hi, v>>>> \o Above(m, hi))
Without(m, lo, hi) == Norm(Below(m, lo) \o Above(m, hi))

Judge(e, want, ret) ==
    /\ Report(If(e.c = want, "content")
              \cup If(e.r = ret, "ret")
              \cup If(e.n = Total(want), "len")
              \cup If(e.e = (IF want = <<>> THEN 1 ELSE 0), "empty")
              \cup If(e.ik = 1, "keys"))
    /\ kv' = e.c

Ok == i <= Len(Trace) /\ "pn" \notin DOMAIN E
Reset == i <= Len(Trace) /\ E.op = "reset" /\ Step /\ kv' = <<>>
PutKeys == Ok /\ E.op = "put" /\ Step /\ Judge(E, TLCEval(With(kv, E.lo, E.hi, E.v)), <<>>)
Delete == Ok /\ E.op = "del" /\ Step
          /\ Judge(E, TLCEval(Without(kv, E.lo, E.hi)), TLCEval(Norm(Between(kv, E.lo, E.hi))))
Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED kv

Next == Reset \/ PutKeys \/ Delete \/ Failed
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
