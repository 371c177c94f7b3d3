----------------------------- MODULE RopeTrace ------------------------------
(* Is a recorded history of the real rope a behaviour of RopeText?           *)
EXTENDS RopeText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next line
          txt   \* the text
vars == <<i, txt>>

Init == i = 1 /\ txt = <<>>
If(b, c) == IF b THEN {} ELSE {c}
E == Trace[i]
Report(clauses) == \A c \in clauses : PrintT(<<"REJECT", i, E.op, c>>)
Step == i' = i + 1

Reset == i <= Len(Trace) /\ E.op = "reset" /\ Step /\ txt' = <<>>

Seen(e) == Before(txt, e.p) \o e.m \o After(txt, Len(txt) - e.s)
Judge(e, want) ==
    /\ Report(If(Seen(e) = want, "content")
              \cup If(e.n = Len(want), "len")
              \cup If(e.e = (IF want = <<>> THEN 1 ELSE 0), "empty")
              \cup If(e.ck = 1, "check"))
    /\ txt' = Seen(e)

Ok == i <= Len(Trace) /\ "pn" \notin DOMAIN E
New == Ok /\ E.op = "new" /\ Step /\ Judge(E, <<>>)
Insert == Ok /\ E.op = "ins" /\ Step /\ Judge(E, InsertText(txt, E.pos, E.b))
Delete == Ok /\ E.op = "del" /\ Step /\ Judge(E, DeleteRange(txt, E.lo, E.hi))
Clear == Ok /\ E.op = "clear" /\ Step /\ Judge(E, <<>>)
Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED txt

Next == Reset \/ New \/ Insert \/ Delete \/ Clear \/ Failed
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
