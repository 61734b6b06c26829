----------------------------- MODULE DepositOps -----------------------------
(* Particle shapes, deposition and gathering in integers.  Lengths are in units of 1/U of a cell (U even).
   Shape(o, U, d) is the B-spline of order o at distance d from its centre, times Den(o, U). *)
EXTENDS Integers, FiniteSets, TLC

LOCAL Ab(a) == IF a < 0 THEN -a ELSE a
Den(o, U) == CASE o = 0 -> 1 [] o = 1 -> U [] o = 2 -> 2 * U * U [] o = 3 -> 6 * U * U * U
Shape(o, U, d) ==
  CASE o = 0 -> IF 2 * d < U THEN 1 ELSE 0
    [] o = 1 -> IF d < U THEN U - d ELSE 0
    [] o = 2 -> LET H == U \div 2 IN
                IF 2 * d <= U THEN 6 * H * H - 2 * d * d ELSE IF 2 * d <= 3 * U THEN (3 * H - d) * (3 * H - d) ELSE 0
    [] o = 3 -> IF d <= U THEN 4 * U * U * U - 6 * U * d * d + 3 * d * d * d
                ELSE IF d <= 2 * U THEN (2 * U - d) * (2 * U - d) * (2 * U - d) ELSE 0
(* nodes that the shape of a particle between x0 and x1 can touch, with a margin *)
Lo(U, x0, x1) == (IF x0 < x1 THEN x0 ELSE x1) \div U - 2
Hi(U, x0, x1) == (IF x0 < x1 THEN x1 ELSE x0) \div U + 3
(* one axis: weights at nodes lo..hi of a particle at x *)
Weights1(o, U, x, lo, hi) == [i \in lo..hi |-> Shape(o, U, Ab(x - i * U))]

(* Charge conserving deposition (Esirkepov): s0, s1 weights at the old and the new position on each axis.
   Currents times 6 U^0 Den^dim, in units where the continuity equation reads rho1 - rho0 + SUM (J(i) - J(i-1)) = 0. *)
Pair(a0, ad, b0, bd) == 6 * a0 * b0 + 3 * ad * b0 + 3 * a0 * bd + 2 * ad * bd
Single(a0, ad) == 6 * a0 + 3 * ad
RECURSIVE Cum(_, _, _, _)
Cum(s0, s1, lo, i) == IF i < lo THEN 0 ELSE Cum(s0, s1, lo, i - 1) + s1[i] - s0[i]
CumTab(s0, s1, lo, hi) == [i \in lo..hi |-> Cum(s0, s1, lo, i)]
=============================================================================
