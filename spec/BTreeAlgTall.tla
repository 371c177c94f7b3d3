---------------------------- MODULE BTreeAlgTall ----------------------------
(***************************************************************************)
(* The same for taller trees: built in one batch, then changed at a few    *)
(* places (one element removed or inserted at a time), then one operation  *)
(* of the kinds of interest at every place.                                *)
(***************************************************************************)
EXTENDS BTreeAlgMC

CONSTANTS Sizes,    \* of the first batch
          D         \* changes before the operation of interest

VARIABLE d          \* changes left; -1: done

TInit == Init /\ d = D + 1

Build(T) == d = D + 1 /\ d' = D /\ \E k \in Sizes : BulkOf(T, k)
InsertBorder(T) ==
    \E i \in 1..Size :
       Do(InsertByPath(T, -i, 0, 2), UnitsAt(i, 0, <<2>>), NamesAt(i, 0, 1), -1, <<"ins", i, 0>>)
Change(T) == d \in 1..D /\ d' = d - 1 /\ (RemoveOne(T) \/ InsertBorder(T))
Finish(T, T4) == d \in 0..D /\ d' = -1 /\ Operations(T, T4)
TNext ==
    /\ bad = {}
    /\ \E T \in {TreeOf(sh, 2)}, T4 \in {TreeOf(sh, 4)} : Build(T) \/ Change(T) \/ Finish(T, T4)
TSpec == TInit /\ [][TNext]_<<vars, d>>
TNavigation == d >= 0 => Navigation
TShape == <<sh, bad, d>>
=============================================================================
