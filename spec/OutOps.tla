------------------------------- MODULE OutOps -------------------------------
(* When an output is due, and where every process writes in the files it shares with others. *)
EXTENDS Integers, Sequences

(* fields: every freq steps between two steps; the others: every period steps *)
FieldsDue(it, freq, lo, hi) == freq >= 1 /\ it >= lo /\ it <= hi /\ (it - lo) % freq = 0
Due(it, period) == period >= 1 /\ it % period = 0

(* The file of a species holds one array per quantity, one after another, each with the particles of process 1, then of
   process 2 and so on.  n[r]: particles of process r; the place of its first particle in the array of quantity v (from 0) *)
RECURSIVE Sum(_, _)
Sum(n, r) == IF r = 0 THEN 0 ELSE n[r] + Sum(n, r - 1)
Place(n, r, v) == v * Sum(n, Len(n)) + Sum(n, r - 1)

(* Number i of those that are written, when only the flagged ones are *)
Written(on) == SelectSeq([i \in 1..Len(on) |-> i], LAMBDA i : on[i])
=============================================================================
