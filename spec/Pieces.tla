------------------------------- MODULE Pieces -------------------------------
(***************************************************************************)
(* The specification of the slicing helpers (trait Sliceable) and of the   *)
(* rope's gap buffer.  An element is the sequence of its units.            *)
(***************************************************************************)
EXTENDS RopeText

Lo(lo) == LowerEnd(lo)
Hi(hi, s) == UpperEnd(hi, Len(s))
Valid(lo, hi, s) == Lo(lo) <= Hi(hi, s) /\ Hi(hi, s) <= Len(s)

Slice(s, lo, hi) == SubSeq(s, Lo(lo) + 1, Hi(hi, s))

(* the update of a sub-range: every unit v of it becomes v + 100; then it
   grows by the unit 99 (w = 1) or loses its last unit (w = 2) *)
Mark(t) == [q \in DOMAIN t |-> t[q] + 100]
Updated(t, w) ==
    CASE w = 0 -> Mark(t)
      [] w = 1 -> Append(Mark(t), 99)
      [] w = 2 -> IF t = <<>> THEN <<>> ELSE Mark(SubSeq(t, 1, Len(t) - 1))
(* The pieces, in order: the first is left in place, the others are
   returned.  A boundary exists where the sub-range begins or ends inside. *)
UpdatePieces(s, lo, hi, w) ==
    LET a == Lo(lo)
        b == Hi(hi, s)
    IN IF a >= b THEN <<s>>
       ELSE (IF a = 0 THEN <<>> ELSE <<Before(s, a)>>)
            \o <<Updated(SubSeq(s, a + 1, b), w)>>
            \o (IF b = Len(s) THEN <<>> ELSE <<After(s, b)>>)

(* gap buffer: bytes, at most cap of them *)
Fits(s, n, cap) == Len(s) + n <= cap
GapInsert(s, pos, b, cap) == IF Fits(s, Len(b), cap) THEN Splice(s, pos, b) ELSE s
=============================================================================
