------------------------------ MODULE RopeText ------------------------------
(***************************************************************************)
(* The specification of Rope: a text is a sequence of bytes.  A range has  *)
(* two bounds <<kind, position>>, kind 0: none, 1: included, 2: excluded.  *)
(***************************************************************************)
EXTENDS GBTSeq

LowerEnd(b) == CASE b[1] = 0 -> 0 [] b[1] = 1 -> b[2] [] b[1] = 2 -> b[2] + 1
UpperEnd(b, len) == CASE b[1] = 0 -> len [] b[1] = 1 -> b[2] + 1 [] b[1] = 2 -> b[2]

InsertText(t, pos, b) == Splice(t, pos, b)
(* what lies past the end is ignored, and a range that ends before it
   starts holds nothing *)
DeleteRange(t, lo, hi) ==
    LET b == Min2(UpperEnd(hi, Len(t)), Len(t))
        a == Min2(LowerEnd(lo), b)
    IN Cut(t, a, b)
=============================================================================
