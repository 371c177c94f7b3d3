---------------------------- MODULE OrdMapTrace -----------------------------
(* Is a recorded history of the real map or set a behaviour of OrdMap?       *)
EXTENDS OrdMap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next line
          kv    \* the map
vars == <<i, kv>>

Init == i = 1 /\ kv = <<>>
If(b, c) == IF b THEN {} ELSE {c}
E == Trace[i]
Report(clauses) == \A c \in clauses : PrintT(<<"REJECT", i, E.op, c>>)
Step == i' = i + 1

Reset == i <= Len(Trace) /\ E.op = "reset" /\ Step /\ kv' = <<>>

(* the iteration after the call *)
Seen(e) == Before(kv, e.p) \o e.m \o After(kv, Len(kv) - e.s)

(* the map must now be `want`, and the call must have returned `ret` *)
Judge(e, want, ret) ==
    /\ Report(If(Seen(e) = want, "content")
              \cup If(e.r = ret, "ret")
              \cup If(e.n = Len(want), "len")
              \cup If(e.e = (IF want = <<>> THEN 1 ELSE 0), "empty")
              \cup If(e.ik = 1, "keys"))
    /\ kv' = Seen(e)

Ok == i <= Len(Trace) /\ "pn" \notin DOMAIN E
New == Ok /\ E.op = "new" /\ Step /\ Judge(E, <<>>, <<>>)
PutKey == Ok /\ E.op = "put" /\ Step /\ Judge(E, MapPut(kv, E.k, E.v), <<>>)
Delete == Ok /\ E.op = "del" /\ Step /\ Judge(E, MapRemove(kv, E.k), MapRemoved(kv, E.k))
Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED kv

Next == Reset \/ New \/ PutKey \/ Delete \/ Failed
Spec == Init /\ [][Next]_vars
(* the judged states keep the order *)
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
