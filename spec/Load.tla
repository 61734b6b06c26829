-------------------------------- MODULE Load --------------------------------
(* Loading a plasma and an antenna by processes that each know their part of the grid only: a line of N cells, cut anywhere, lengths
   counted in thirds of a cell.  A species asks for the box a..b; an antenna crosses the columns of a second axis at heights that fall or
   rise by `slope`.  Processes load in any order, a cell at a time.  Whatever the cut, what is loaded is what one process would load. *)
EXTENDS Integers, FiniteSets
CONSTANTS N, W, MaxRanks

VARIABLES cuts, a, b, slope, at0, pos, ant, cells, plane
vars == <<cuts, a, b, slope, at0, pos, ant, cells, plane>>

Ends == {c \in SUBSET (0..N) : 0 \in c /\ N \in c /\ Cardinality(c) <= MaxRanks + 1}
Lows == cuts \ {N}
High(lo) == CHOOSE h \in cuts : h > lo /\ \A k \in cuts : k > lo => k >= h
Nint(t) == (2 * t + 3) \div 6
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
First(lo) == Nint(Max(a - 3 * lo, 0))
Last(lo) == Nint(Min(b, 3 * High(lo)) - 3 * lo)
Height(c) == at0 + slope * c

Init == /\ cuts \in Ends /\ a \in -3..(3 * N + 3) /\ b \in -3..(3 * N + 3) /\ a <= b
        /\ slope \in {-2, 0, 1} /\ at0 \in {0, 1, 3, 3 * N - 1}
        /\ pos = [l \in Lows |-> First(l)] /\ ant = [l \in Lows |-> 0]
        /\ cells = [c \in 0..(N - 1) |-> 0] /\ plane = [c \in 0..(W - 1) |-> 0]

LoadCell(l) == /\ pos[l] < Last(l)
               /\ cells' = [cells EXCEPT ![l + pos[l]] = @ + 1]
               /\ pos' = [pos EXCEPT ![l] = @ + 1]
               /\ UNCHANGED <<cuts, a, b, slope, at0, ant, plane>>
LoadPlane(l) == /\ ant[l] < W
                /\ plane' = IF 3 * l <= Height(ant[l]) /\ Height(ant[l]) < 3 * High(l) THEN [plane EXCEPT ![ant[l]] = @ + 1] ELSE plane
                /\ ant' = [ant EXCEPT ![l] = @ + 1]
                /\ pos[l] >= Last(l)
                /\ UNCHANGED <<cuts, a, b, slope, at0, pos, cells>>
Next == \E l \in Lows : LoadCell(l) \/ LoadPlane(l)
Spec == Init /\ [][Next]_vars

Done == \A l \in Lows : pos[l] >= Last(l) /\ ant[l] = W
Clip(i) == Max(0, Min(i, N))
InBox(c) == Clip(Nint(a)) <= c /\ c < Clip(Nint(b))
OnceEach == /\ \A c \in DOMAIN cells : cells[c] <= (IF InBox(c) THEN 1 ELSE 0)
            /\ \A c \in DOMAIN plane : plane[c] <= 1
AllThere == Done => /\ \A c \in DOMAIN cells : InBox(c) => cells[c] = 1
                    /\ \A c \in DOMAIN plane : plane[c] = (IF 0 <= Height(c) /\ Height(c) < 3 * N THEN 1 ELSE 0)
Own == \A l \in Lows : pos[l] <= Max(First(l), High(l) - l)
=============================================================================
