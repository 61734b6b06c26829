------------------------------- MODULE Maxwell -------------------------------
(* The leapfrog update of the electromagnetic field on the staggered (or nodal) grid, and what it must preserve.
   Fields are three components each; a component is read through an operator F(a, x), x a node.
   Differences have a stencil C = <<c1, c2, ...>> of half-width Len(C) (order 2 * Len(C)) per axis:
     forward  D+ f(x) = SUM c_i (f(x+i) - f(x-i+1))     backward  D- f(x) = SUM c_i (f(x+i-1) - f(x-i))
     nodal    D  f(x) = SUM c_i (f(x+i) - f(x-i))
   B is pushed with forward differences of E, E with backward differences of B and minus the current.

   The design is checked on a small periodic grid: fields are linear in their initial values, so starting from every unit impulse
   (of a component of E, B or of a conserved current) covers them all.  Checked: div B does not change, div E
   changes by minus div J, a uniform field stays. *)
EXTENDS MaxwellOps, FiniteSets

CONSTANTS Nx, Stencils, Nodal, Steps
Axs == {a \in 1..3 : Nx[a] > 1}
Nodes == (0..Nx[1] - 1) \X (0..Nx[2] - 1) \X (0..Nx[3] - 1)
Wr(x) == <<x[1] % Nx[1], x[2] % Nx[2], x[3] % Nx[3]>>
VARIABLES e, b, j, n, ph, divb0, dive0
vars == <<e, b, j, n, ph, divb0, dive0>>
FE(a, x) == e[<<a, Wr(x)>>]
FB(a, x) == b[<<a, Wr(x)>>]
FJ(a, x) == j[<<a, Wr(x)>>]
Comp == (1..3) \X Nodes
Zero == [c \in Comp |-> 0]
W1 == <<1, 1, 1>>
DivOf(F(_, _), x, m) == Diff(F, 1, 1, x, Stencils, m, Axs) + Diff(F, 2, 2, x, Stencils, m, Axs) + Diff(F, 3, 3, x, Stencils, m, Axs)
DivB(x) == DivOf(FB, x, IF Nodal THEN "nod" ELSE "fwd")
DivE(x) == DivOf(FE, x, IF Nodal THEN "nod" ELSE "bwd")
DivJ(x) == DivOf(FJ, x, IF Nodal THEN "nod" ELSE "bwd")
Init ==
  /\ \E w \in {"e", "b", "j", "u"} : \E c \in Comp :
       /\ e = IF w = "e" THEN [Zero EXCEPT ![c] = 1] ELSE IF w = "u" THEN [d \in Comp |-> d[1]] ELSE Zero
       /\ b = IF w = "b" THEN [Zero EXCEPT ![c] = 1] ELSE IF w = "u" THEN [d \in Comp |-> -d[1]] ELSE Zero
       /\ j = IF w = "j" THEN [Zero EXCEPT ![c] = 1] ELSE Zero
  /\ n = 0 /\ ph = 0
  /\ divb0 = [x \in Nodes |-> DivB(x)]
  /\ dive0 = [x \in Nodes |-> DivE(x)]
HalfB == ph \in {0, 2} /\ b' = [c \in Comp |-> PushedB(FB, FE, c[1], c[2], Stencils, W1, Nodal, Axs)] /\ ph' = (ph + 1) % 3
         /\ n' = (IF ph = 2 THEN n + 1 ELSE n) /\ UNCHANGED <<e, j, divb0, dive0>>
FullE == ph = 1 /\ e' = [c \in Comp |-> PushedE(FE, FB, FJ, c[1], c[2], Stencils, W1, Nodal, Axs)] /\ ph' = 2
         /\ dive0' = [x \in Nodes |-> dive0[x] - DivJ(x)] /\ UNCHANGED <<b, j, n, divb0>>
Next == n < Steps /\ (HalfB \/ FullE)
Spec == Init /\ [][Next]_vars
DivBKept == \A x \in Nodes : DivB(x) = divb0[x]
GaussKept == \A x \in Nodes : DivE(x) = dive0[x]
=============================================================================
