--------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* C18: a call works on the rows of a bundle.  Each row is read, worked on *)
(* in private and written back by whichever thread owns it, in any         *)
(* interleaving; a sum collects private parts and adds them at the end.    *)
(* What the caller may rely on: row j of the result is Work of row j, and  *)
(* the sum is the sum of the counted rows' terms.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* the result of a call on the parts of a partition, each part a sequence of rows *)
Seqs(W(_), part) == [j \in 1..Len(part) |-> W(part[j])]
Counted(vig, fail, ignore) == ~fail /\ ~(ignore /\ vig)
=============================================================================
