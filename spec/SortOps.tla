------------------------------ MODULE SortOps ------------------------------
(* The order in which the particles of a tile are put: by cell of a grid of its own (spacing d, nodes at lo + shift + k*d),
   x fastest, z slowest; particles of one cell keep their order, and each particle keeps all that belongs to it. *)
EXTENDS Integers, Sequences, SequencesExt

(* floor(a/b), b > 0: TLA+'s \div rounds down *)
CeilDiv(a, b) == -((-a) \div b)

(* the first node of the grid that is not above lo, the lowest place of the tile; not more than one step below it unless
   the shift is negative *)
Origin(lo, shift, d) == lo + shift - (IF shift > 0 THEN CeilDiv(shift, d) * d ELSE 0)
NBins(lo, hi, shift, d) == CeilDiv(hi + d - Origin(lo, shift, d), d)
(* a particle that is out of its tile counts in the cell nearest to it *)
Bin(x, lo, hi, shift, d) ==
  LET k == (x - Origin(lo, shift, d)) \div d
      n == NBins(lo, hi, shift, d)
  IN IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k

(* bins on the axes ax = <<slowest, ..., fastest>>, compared as words *)
RECURSIVE Word(_, _, _, _, _, _)
Word(x, ax, lo, hi, shift, d) ==
  IF ax = <<>> THEN 0
  ELSE Word(x, Front(ax), lo, hi, shift, d) * NBins(lo[Last(ax)], hi[Last(ax)], shift[Last(ax)], d[Last(ax)])
       + Bin(x[Last(ax)], lo[Last(ax)], hi[Last(ax)], shift[Last(ax)], d[Last(ax)])

(* new is old, stably sorted by key *)
StableSorted(old, new, key(_)) ==
  LET k == [i \in 1..Len(old) |-> key(old[i])]
      rank == [i \in 1..Len(old) |-> 1 + Len(SelectSeq([j \in 1..Len(old) |-> j], LAMBDA j : k[j] < k[i] \/ (k[j] = k[i] /\ j < i)))]
  IN /\ Len(new) = Len(old)
     /\ \A i \in 1..Len(old) : new[rank[i]] = old[i]

Due(on, it, period, start) == on > 0 /\ it >= start /\ period > 0 /\ it % period = 0
=============================================================================
