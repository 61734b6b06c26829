-------------------------------- MODULE Push --------------------------------
(* The rotation of the Boris push in exact (integer) arithmetic: for every momentum w between the two half kicks and every angle
   vector t of a small box, the vector r = (1+t^2) u+ of the closed form solves the implicit equation u+ - u- = (u+ + u-) x t,
   keeps the length, keeps the component along t, and is undone by -t. *)
EXTENDS Integers
CONSTANT M
VARIABLES w, t
R == -M..M
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Comb(p, a, q, b, r, d) == [i \in 1..3 |-> p * a[i] + q * b[i] + r * d[i]]
N == 1 + Dot(t, t)
Turn(u, s) == Comb(1 - Dot(s, s), u, 2, Cross(u, s), 2 * Dot(u, s), s)    \* times 1 + s^2
Neg(s) == [i \in 1..3 |-> -s[i]]
(* the form with an intermediate vector, as programs write it: u' = u + u x t; u+ = u + u' x s, s = 2t/(1+t^2); times 1 + t^2 *)
TwoStep(u, s) == LET p == Comb(1, u, 1, Cross(u, s), 0, s) IN Comb(1 + Dot(s, s), u, 2, Cross(p, s), 0, s)
Init == w \in R \X R \X R /\ t \in R \X R \X R
Next == UNCHANGED <<w, t>>
Solves == LET r == Turn(w, t) s == Comb(1, r, N, w, 0, w) IN Comb(1, r, -N, w, 0, w) = Cross(s, t)
Length == Dot(Turn(w, t), Turn(w, t)) = N * N * Dot(w, w)
Along == Dot(Turn(w, t), t) = N * Dot(w, t)
Undone == Turn(Turn(w, t), Neg(t)) = [i \in 1..3 |-> N * N * w[i]]
Program == TwoStep(w, t) = Turn(w, t)
=============================================================================
