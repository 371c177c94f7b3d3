--------------------------- MODULE LongTextTrace ----------------------------
(* Is a recorded history of a very long rope a behaviour of a text?  The text *)
(* is a sequence of runs <<c, n>>: the n characters numbered c, c+1, ...,     *)
(* counted modulo the size of the alphabet.                                   *)
EXTENDS GBTSeq, Json, IOUtils

Letters == 95
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,    \* next line
          txt   \* the text
vars == <<i, txt>>

Init == i = 1 /\ txt = <<>>
If(b, x) == IF b THEN {} ELSE {x}
E == Trace[i]
Report(clauses) == \A x \in clauses : PrintT(<<"REJECT", i, E.op, x>>)
Step == i' = i + 1

Length(t) == SumOf([q \in DOMAIN t |-> t[q][2]])
(* runs that continue each other are one *)
Norm(t) ==
    FoldLeft(LAMBDA acc, r :
                IF acc # <<>> /\ (acc[Len(acc)][1] + acc[Len(acc)][2]) % Letters = r[1]
                THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + r[2]>>]
                ELSE Append(acc, r), <<>>, t)
Part(t, a, b) ==
    LET st == TLCEval(Running([q \in DOMAIN t |-> t[q][2]]))
        cut == TLCEval([q \in DOMAIN t |->
                  LET x == Max2(a, st[q]) y == Min2(b, st[q + 1])
                  IN <<(t[q][1] + (x - st[q])) % Letters, y - x>>])
    IN SelectSeq(cut, LAMBDA r : r[2] > 0)

From(lo) == IF lo[1] = 0 THEN 0 ELSE IF lo[1] = 1 THEN lo[2] ELSE lo[2] + 1
To(hi, n) == Min2(n, IF hi[1] = 0 THEN n ELSE IF hi[1] = 1 THEN hi[2] + 1 ELSE hi[2])

Judge(e, want) ==
    /\ Report(If(e.c = want, "content")
              \cup If(e.n = Length(want), "len")
              \cup If(e.e = (IF want = <<>> THEN 1 ELSE 0), "empty")
              \cup If(e.ck = 1, "check"))
    /\ txt' = e.c

Ok == i <= Len(Trace) /\ "pn" \notin DOMAIN E
Reset == i <= Len(Trace) /\ E.op = "reset" /\ Step /\ txt' = <<>>
Insert == Ok /\ E.op = "ins" /\ Step
          /\ Judge(E, TLCEval(Norm(Part(txt, 0, E.pos) \o E.b \o Part(txt, E.pos, Length(txt)))))
Delete == Ok /\ E.op = "del" /\ Step
          /\ LET n == Length(txt) b == To(E.hi, n) a == Min2(From(E.lo), b)
             IN Judge(E, TLCEval(Norm(Part(txt, 0, a) \o Part(txt, b, n))))
Clear == Ok /\ E.op = "clear" /\ Step /\ Judge(E, <<>>)
Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED txt

Next == Reset \/ Insert \/ Delete \/ Clear \/ Failed
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
