--------------------------- MODULE StretchesTrace ---------------------------
(* Is a recorded history of a very large tree a behaviour of Stretches?      *)
EXTENDS Stretches, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,      \* next line
          c,      \* the content
          most,   \* the most elements there ever were
          calls,  \* calls since the tree was empty
          fan
vars == <<i, c, most, calls, fan>>

Init == i = 1 /\ c = <<>> /\ most = 0 /\ calls = 0 /\ fan = 12
If(b, x) == IF b THEN {} ELSE {x}
E == Trace[i]
Report(clauses) == \A x \in clauses : PrintT(<<"REJECT", i, E.op, x>>)
Step == i' = i + 1

Reset ==
    /\ i <= Len(Trace) /\ E.op = "reset" /\ Step
    /\ c' = <<>> /\ most' = 0 /\ calls' = 0 /\ fan' = E.fan

(* the content a call must leave, and what it may return *)
New(e) == <<<<e.lo, e.lo + e.k - 1, e.w>>>>
Want(e) ==
    CASE e.op \in {"push", "from"} -> (IF e.op = "from" THEN Norm(New(e)) ELSE Norm(c \o New(e)))
      [] e.op = "prepend" -> Norm(New(e) \o c)
      [] e.op \in {"ins", "insq", "insm"} -> Put(c, e.a, New(e))
      [] e.op \in {"upl", "ups"} -> Put(Heavier(c, e.a, e.a + 1), e.a + 1, New(e))
      [] e.op \in {"drain", "drainq", "rm"} -> Drop(c, e.a, e.b)
      [] e.op \in {"upd", "uplr", "gem"} -> Heavier(c, e.a, e.b)
      [] e.op = "ucf" -> Norm([q \in DOMAIN c |-> <<c[q][1], c[q][2],
                                  IF c[q][3] > 0 THEN 0 ELSE c[q][3]>>])
      [] e.op = "clone" -> c
      [] e.op = "clear" -> <<>>
Ret(e) ==
    CASE e.op \in {"drain", "drainq", "rm"} -> e.r = Norm(Part(c, e.a, e.b))
      [] e.op = "upd" -> e.r = <<e.b - e.a>>
      [] e.op = "ucf" ->      \* in the order of their numbers
            e.r = Norm(SortSeq([q \in DOMAIN Heavy(c) |-> <<Heavy(c)[q][1], Heavy(c)[q][2], 0>>],
                               LAMBDA x, y : x[1] < y[1]))
      [] OTHER -> TRUE

Call ==
    /\ i <= Len(Trace) /\ E.op \notin {"reset", "q"} /\ "pn" \notin DOMAIN E /\ Step
    /\ LET want == TLCEval(Want(E))
           n == Total(E.c)
           peak == Max2(IF E.op \in {"clear", "from"} THEN 0 ELSE most, n)
           k == IF E.op \in {"clear", "from"} THEN 0 ELSE calls + 1
       IN /\ Report(If(E.c = want, "content")
                    \cup If(Ret(E), "ret")
                    \cup If(E.rc = <<n, WeightOf(E.c)>>, "rootsum")
                    \cup If(E.ck = 1, "check")
                    \cup If(E.li = E.nl - 1, "leak")       \* every node but the root is linked once
                    \cup If(peak >= MinPeak(fan, E.d), "height")
                    \cup If(SpaceFits(fan, E.d, E.nl, n, k), "space"))
          /\ c' = E.c /\ most' = peak /\ calls' = k
    /\ UNCHANGED fan

Failed ==
    /\ i <= Len(Trace) /\ "pn" \in DOMAIN E /\ Step
    /\ Report({"failed"}) /\ UNCHANGED <<c, most, calls, fan>>

(* ------------------------------- queries ------------------------------- *)
All(s, P(_)) == \A q \in DOMAIN s : P(s[q])
(* the cursor (position, offset 0 or 1) as the element and offset it names *)
Place(x, off) == IF At(c, x) = -1 THEN <<-1, 0>> ELSE <<At(c, x), off>>
QueryClause(k, v) ==
    LET n == Total(c)
    IN If(CASE k = "lk" -> All(v, LAMBDA x :      \* position, element, offset, found
                    IF x[1] < n THEN Tail(x) = <<At(c, x[1]), 0, 1>>
                    ELSE Tail(x) = <<At(c, n - 1), x[1] - n + 1, 0>>)
            [] k = "rg" -> All(v, LAMBDA x : x[3] = At(c, x[1]) /\ x[4] = At(c, x[2]))
            [] k = "nx" -> All(v, LAMBDA x : x[2] = At(c, x[1] + 1))
            [] k = "pv" -> All(v, LAMBDA x : x[2] = At(c, x[1] - 1))
            [] k = "cm" -> All(v, LAMBDA x :
                    x[3] = IF x[1] < x[2] THEN -1 ELSE IF x[1] = x[2] THEN 0 ELSE 1)
            [] k = "pl" -> All(v, LAMBDA x : x[3] =
                    IF x[2] = 1 THEN Place(x[1], 1) ELSE Place(x[1] - 1, 1))
            [] k = "pr" -> All(v, LAMBDA x : x[3] =
                    IF x[2] = 0 THEN Place(x[1], 0) ELSE Place(x[1] + 1, 0))
            [] k = "sh" -> All(v, LAMBDA x : x[3] = Place(x[1] + x[2] + 1, 0))
            [] k = "vp" -> All(v, LAMBDA x :      \* position, offset; elements and weight before, offset; visits
                    /\ x[3] = <<x[1], WeightOf(Part(c, 0, x[1])), x[2]>>
                    /\ x[4] <= x[5] * fan)
            [] k = "en" -> All(v, LAMBDA x :
                    x = IF n = 0 THEN <<-1, -1, <<-1, 0>>, <<-1, 0>>>>
                        ELSE <<At(c, 0), At(c, n - 1), Place(0, 0), Place(n - 1, 1)>>)
            [] k = "ir" -> All(v, LAMBDA x :      \* from, to, to included, what was seen
                    x[4] = Norm(Part(c, x[1], IF x[3] = 1 THEN x[2] + 1 ELSE x[2])))
            [] k = "wf" -> All(v, LAMBDA x :      \* the heavy elements, and their positions
                    /\ x[1] = Norm(Heavy(c))
                    /\ x[2] = LET st == TLCEval(Offsets(c))
                                  at == TLCEval([q \in DOMAIN c |-> <<st[q], st[q + 1] - 1, IF c[q][3] > 0 THEN 1 ELSE 0>>])
                              IN Norm(Heavy(at)))
            [] k = "hd" -> All(v, LAMBDA x : x[2] = IF Has(c, x[1]) THEN x[1] ELSE -1)
            [] OTHER -> FALSE, k)

Query ==
    /\ i <= Len(Trace) /\ E.op = "q" /\ "pn" \notin DOMAIN E /\ Step
    /\ Report(UNION {QueryClause(E.ks[q], E[E.ks[q]]) : q \in DOMAIN E.ks})
    /\ UNCHANGED <<c, most, calls, fan>>

Next == Reset \/ Call \/ Failed \/ Query
Spec == Init /\ [][Next]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
