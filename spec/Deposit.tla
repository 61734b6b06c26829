------------------------------- MODULE Deposit -------------------------------
(* One particle on a periodic-free patch moves by less than a cell; charge and current are deposited on the nodes.
   Checked for every position, displacement and combination of orders:
     partition of unity and centre of charge of the shape; charge conservation of the Esirkepov deposition at every node;
     its total current and that of the direct deposition equal charge times displacement. *)
EXTENDS DepositOps, FiniteSetsExt, SequencesExt
CONSTANTS U, Orders, Dim, Step, H  \* H: half width of the patch
VARIABLES o, x, d, phase, rho, j
vars == <<o, x, d, phase, rho, j>>
Axes == 1..Dim
L == -H
Pos == {k * Step : k \in 0..((U - 1) \div Step)}
Dsp == {k * Step : k \in (-((U - 1) \div Step))..((U - 1) \div Step)}
Nodes == [Axes -> L..H]
W(a, y) == Weights1(o[a], U, y, L, H)
Init ==
  /\ o \in [Axes -> Orders] /\ x \in [Axes -> Pos] /\ d \in [Axes -> Dsp]
  /\ phase = "start" /\ rho = <<>> /\ j = <<>>
Tab(y) == LET w == [a \in Axes |-> W(a, y[a])] IN [n \in Nodes |-> FoldSet(LAMBDA a, p : p * w[a][n[a]], 1, Axes)]
(* the deposition of charge at the old position, the displacement, and the deposition of charge and current at the new one *)
Depose == phase = "start" /\ rho' = <<Tab(x)>> /\ phase' = "deposed" /\ UNCHANGED <<o, x, d, j>>
Move == phase = "deposed" /\ phase' = "moved" /\ x' = [a \in Axes |-> x[a] + d[a]] /\ UNCHANGED <<o, d, rho, j>>
Current(a) ==
  LET s0 == [b \in Axes |-> W(b, x[b] - d[b])]
      s1 == [b \in Axes |-> W(b, x[b])]
      c == CumTab(s0[a], s1[a], L, H)
      oth == Axes \ {a}
      b == CHOOSE b \in oth : TRUE
      e == CHOOSE e \in oth \ {b} : TRUE
      Ds(b1, n) == s1[b1][n[b1]] - s0[b1][n[b1]]
  IN [n \in Nodes |-> CASE Dim = 1 -> -6 * c[n[a]]
                       [] Dim = 2 -> -c[n[a]] * Single(s0[b][n[b]], Ds(b, n))
                       [] Dim = 3 -> IF c[n[a]] = 0 THEN 0 ELSE -c[n[a]] * Pair(s0[b][n[b]], Ds(b, n), s0[e][n[e]], Ds(e, n))]
Currents == phase = "moved" /\ phase' = "done" /\ rho' = Append(rho, Tab(x)) /\ j' = [a \in Axes |-> Current(a)] /\ UNCHANGED <<o, x, d>>
Next == Depose \/ Move \/ Currents
Spec == Init /\ [][Next]_vars

D(a) == Den(o[a], U)
DAll == FoldSet(LAMBDA a, p : p * D(a), 1, Axes)
Total(f) == FoldSet(LAMBDA n, s : s + f[n], 0, Nodes)
Unity == \A k \in 1..Len(rho) : Total(rho[k]) = DAll
Centre == rho # <<>> => LET r == rho[Len(rho)] y == IF Len(rho) = 1 /\ phase = "moved" THEN [a \in Axes |-> x[a] - d[a]] ELSE x IN
  \A a \in Axes : FoldSet(LAMBDA n, s : s + n[a] * r[n], 0, Nodes) * U = y[a] * DAll
Positive == \A k \in 1..Len(rho) : \A n \in Nodes : rho[k][n] >= 0
Prev(n, a) == [n EXCEPT ![a] = n[a] - 1]
Continuity == phase = "done" =>
  \A n \in Nodes : 6 * (rho[2][n] - rho[1][n]) + FoldSet(LAMBDA a, s : s + j[a][n] - (IF n[a] = L THEN 0 ELSE j[a][Prev(n, a)]), 0, Axes) = 0
TotalCurrent == phase = "done" => \A a \in Axes : Total(j[a]) * U = 6 * d[a] * DAll
(* nothing is deposited beyond the support of the two shapes *)
Compact == phase = "done" => \A a \in Axes : \A n \in Nodes : (n[a] = H \/ n[a] = L) => j[a][n] = 0
=============================================================================
