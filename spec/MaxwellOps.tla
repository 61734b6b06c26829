----------------------------- MODULE MaxwellOps -----------------------------
(* Differences, curls and the update of the field, shared by the design (Maxwell) and the trace specification.
   A field's component is read through an operator F(a, x), x a node; stencils are explained in Maxwell. *)
EXTENDS Integers, Sequences

Up(a) == IF a = 3 THEN 1 ELSE a + 1
Off(x, a, i) == [x EXCEPT ![a] = @ + i]
RECURSIVE DiffSum(_, _, _, _, _, _, _)
DiffSum(F(_, _), b, a, x, C, i, m) ==
  IF i > Len(C) THEN 0
  ELSE C[i] * (CASE m = "fwd" -> F(b, Off(x, a, i)) - F(b, Off(x, a, 1 - i))
                 [] m = "bwd" -> F(b, Off(x, a, i - 1)) - F(b, Off(x, a, -i))
                 [] OTHER -> F(b, Off(x, a, i)) - F(b, Off(x, a, -i)))
       + DiffSum(F, b, a, x, C, i + 1, m)
(* derivative of component b along axis a; an axis that is not in axs has none *)
Diff(F(_, _), b, a, x, St, m, axs) == IF a \in axs THEN DiffSum(F, b, a, x, St[a], 1, m) ELSE 0
(* component a of the curl, each axis with its weight W[a] *)
Curl(F(_, _), a, x, St, W, m, axs) ==
  W[Up(a)] * Diff(F, Up(Up(a)), Up(a), x, St, m, axs) - W[Up(Up(a))] * Diff(F, Up(a), Up(Up(a)), x, St, m, axs)

PushedB(B(_, _), E(_, _), a, x, St, W, nodal, axs) == B(a, x) - Curl(E, a, x, St, W, IF nodal THEN "nod" ELSE "fwd", axs)
PushedE(E(_, _), B(_, _), J(_, _), a, x, St, W, nodal, axs) == E(a, x) + 2 * Curl(B, a, x, St, W, IF nodal THEN "nod" ELSE "bwd", axs) - J(a, x)

=============================================================================
