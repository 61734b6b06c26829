------------------------------- MODULE Diags -------------------------------
(* Design of the diagnostics.
   1. However the ring of nodes is cut, every node is counted exactly once (either choice of the nodes a process counts).
   2. However the plane and a particle move, the particle is caught once for every time it goes from behind to the front, so that
      catches and returns balance; the moment of the catch is between the two instants, and the interpolated position is on the plane. *)
EXTENDS DiagOps, SequencesExt
CONSTANTS NMax, M, Steps

VARIABLES phase, N, cut, rel0, rel, prev, caught, back, k
vars == <<phase, N, cut, rel0, rel, prev, caught, back, k>>

Cuts(n) == {SetToSortSeq(s \union {0, n}, <) : s \in SUBSET (1..(n - 1))}

Init == /\ phase \in {"ring", "plane"} /\ k = 0 /\ caught = 0 /\ back = 0
        /\ IF phase = "ring" THEN N \in 1..NMax /\ cut \in Cuts(N) /\ rel0 = 0 ELSE N = 0 /\ cut = <<>> /\ rel0 \in -M..M
        /\ rel = rel0 /\ prev = rel0
(* the particle moves by a, the plane by b, along its normal *)
Move == /\ phase = "plane" /\ k < Steps /\ k' = k + 1
        /\ \E a \in -2..2, b \in -1..1 :
             /\ rel' = rel + a - b /\ rel' \in -M..M /\ prev' = rel
             /\ caught' = caught + (IF Caught(rel, rel') THEN 1 ELSE 0)
             /\ back' = back + (IF Back(rel, rel') THEN 1 ELSE 0)
        /\ UNCHANGED <<phase, N, cut, rel0>>
Next == Move
Spec == Init /\ [][Next]_vars

Procs == 1..(Len(cut) - 1)
Part(Own(_)) == /\ UNION {Own(p) : p \in Procs} = 0..(N - 1)
                /\ \A p, q \in Procs : p # q => Own(p) \intersect Own(q) = {}
                /\ \A p \in Procs : Cardinality(Own(p)) = cut[p + 1] - cut[p]
OnceUpper == phase = "ring" => Part(LAMBDA p : Upper(N, cut, p))
OnceLower == phase = "ring" => Part(LAMBDA p : Lower(N, cut, p))
InFront(x) == IF x > 0 THEN 1 ELSE 0
Balance == phase = "plane" => caught - back = InFront(rel) - InFront(rel0)
(* the weights |old| and new, over their sum, are fractions of one and put the particle on the plane *)
OnPlane == phase = "plane" /\ Caught(prev, rel) => LET o == -prev IN o >= 0 /\ rel > 0 /\ o * rel + rel * prev = 0
=============================================================================
