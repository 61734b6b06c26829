----------------------------- MODULE OptDepth -----------------------------
(* The optical depth of a particle, with small integers: in each step of the code it shrinks by rate * dt, and the event comes at the time
   within the step at which it vanishes.  However time is cut into steps, the event comes when the accumulated rate reaches the depth that
   was drawn.  Rates are constant over unit intervals; steps divide a unit into parts of 1/2 (times are counted in halves, depths in
   halves as well). *)
EXTENDS Integers, Sequences
CONSTANTS Rates, Units, MaxDepth
VARIABLES rate, depth0, t, depth, event      \* event: <<>> or <<numerator, denominator>> of its time, in halves
vars == <<rate, depth0, t, depth, event>>
Init == /\ rate \in [1..Units -> Rates] /\ depth0 \in 0..MaxDepth
        /\ t = 0 /\ depth = depth0 /\ event = <<>>
Step(dt) ==                        \* dt halves
  LET r == rate[t \div 2 + 1]
      d == depth - r * dt
  IN /\ event = <<>>
     /\ t + dt <= 2 * Units /\ t \div 2 = (t + dt - 1) \div 2       \* within one unit
     /\ t' = t + dt /\ depth' = d
     /\ event' = IF d < 0 THEN <<t * r + d + r * dt, r>> ELSE <<>>     \* t + d/r + dt
     /\ UNCHANGED <<rate, depth0>>
Next == \E dt \in {1, 2} : Step(dt)
Spec == Init /\ [][Next]_vars
RECURSIVE Acc(_)                  \* accumulated rate at time x (halves)
Acc(x) == IF x = 0 THEN 0 ELSE Acc(x - 1) + rate[(x - 1) \div 2 + 1]
\* the depth that remains is what was drawn less what has accumulated
Remains == depth = depth0 - Acc(t)
\* no event as long as the depth is not used up; with the event it is used up, at the right time
Right ==
  IF event = <<>> THEN depth >= 0
  ELSE LET n == event[1]
           r == event[2]
           u == CHOOSE x \in 0..(t - 1) : Acc(x) <= depth0 /\ Acc(x + 1) > depth0       \* the half in which it vanishes
       IN /\ r > 0 /\ depth < 0
          /\ n = u * r + (depth0 - Acc(u))                              \* time = u + (depth0 - Acc(u)) / r, whatever the steps were
          /\ n <= t * r
=============================================================================
