------------------------------ MODULE Sorting ------------------------------
(* Counting sort of the particles of a tile, one step per particle, as the library does it: count the particles of each
   bin, turn the counts into starting places, then move each particle - position and attributes - to its place. *)
EXTENDS SortOps, TLC

CONSTANTS NP,        \* at most this many particles
          LO, HI,    \* the tile
          D, SHIFTS  \* step of the sorting grid, its shifts

(* for the configurations, which hold no negative numbers *)
ShiftsA == {0, 1, 3, -1}
ShiftsB == {2, -3, -2}

VARIABLES old, shift, pc, i, cnt, place, xs, att
vars == <<old, shift, pc, i, cnt, place, xs, att>>

(* places a little outside the tile are reached by particles put back by a boundary *)
Xs == (LO - 1)..(HI + 1)
N == NBins(LO, HI, shift, D)
B(q) == Bin(q.x, LO, HI, shift, D) + 1

Init ==
  /\ \E n \in 0..NP : \E f \in [1..n -> Xs] : old = [k \in 1..n |-> [x |-> f[k], a |-> k]]
  /\ shift \in SHIFTS
  /\ pc = "count" /\ i = 1
  /\ cnt = [k \in 1..N |-> 0] /\ place = <<>>
  /\ xs = [k \in 1..Len(old) |-> 0] /\ att = [k \in 1..Len(old) |-> 0]

Count ==
  /\ pc = "count" /\ i <= Len(old)
  /\ cnt' = [cnt EXCEPT ![B(old[i])] = @ + 1] /\ i' = i + 1
  /\ UNCHANGED <<old, shift, pc, place, xs, att>>

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Start ==
  /\ pc = "count" /\ i > Len(old)
  /\ place' = [k \in 1..N |-> Sum(cnt, k - 1)] /\ pc' = "move" /\ i' = 1
  /\ UNCHANGED <<old, shift, cnt, xs, att>>

Move ==
  /\ pc = "move" /\ i <= Len(old)
  /\ LET b == B(old[i]) IN
       /\ place' = [place EXCEPT ![b] = @ + 1]
       /\ xs' = [xs EXCEPT ![place[b] + 1] = old[i].x]
       /\ att' = [att EXCEPT ![place[b] + 1] = old[i].a]
  /\ i' = i + 1 /\ UNCHANGED <<old, shift, pc, cnt>>

End == pc = "move" /\ i > Len(old) /\ pc' = "done" /\ UNCHANGED <<old, shift, i, cnt, place, xs, att>>

Next == Count \/ Start \/ Move \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

New == [k \in 1..Len(old) |-> [x |-> xs[k], a |-> att[k]]]
(* every bin met is one of the grid's, so that the counters are never read out of their bounds *)
Bounds == \A k \in 1..Len(old) : B(old[k]) \in 1..N
(* inside the tile nobody is put in a cell that is not its own, and no cell is longer than a step *)
OwnCell == \A x \in LO..HI : LET b == Bin(x, LO, HI, shift, D) o == Origin(LO, shift, D) IN o + b * D <= x /\ x < o + (b + 1) * D
Aligned == (Origin(LO, shift, D) - LO - shift) % D = 0
Sorted == pc = "done" => StableSorted(old, New, LAMBDA q : Bin(q.x, LO, HI, shift, D))
Terminates == <>(pc = "done")
=============================================================================
