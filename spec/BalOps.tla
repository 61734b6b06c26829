------------------------------- MODULE BalOps -------------------------------
(* Sharing a line of cells between processes by what each cell costs. Cells, and processes, count from 0. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Upto(_, _)
(* cost of the cells 0..c *)
Upto(load, c) == IF c < 0 THEN 0 ELSE load[c] + Upto(load, c - 1)

(* the last cell of process p of np, whose first cell is lo: the first one at which the processes up to p have their share of the total,
   if every process after p is left a cell *)
LastCell(load, n, np, p, lo) ==
  LET enough == {c \in lo..(n - 1) : Upto(load, c) * np >= (p + 1) * Upto(load, n - 1)}
      free == n - np + p
  IN IF p = np - 1 THEN n - 1
     ELSE IF enough = {} THEN free
     ELSE LET c == CHOOSE c \in enough : \A d \in enough : c <= d IN IF c < free THEN c ELSE free

RECURSIVE Share(_, _, _, _, _)
(* <<first, last>> of the processes p, p + 1, ... *)
Share(load, n, np, p, lo) ==
  IF p = np THEN <<>>
  ELSE LET c == LastCell(load, n, np, p, lo) IN <<<<lo, c>>>> \o Share(load, n, np, p + 1, c + 1)

Partition(cuts, n) ==
  /\ cuts[1][1] = 0 /\ cuts[Len(cuts)][2] = n - 1
  /\ \A p \in 1..Len(cuts) : cuts[p][1] <= cuts[p][2]
  /\ \A p \in 1..(Len(cuts) - 1) : cuts[p + 1][1] = cuts[p][2] + 1
=============================================================================
