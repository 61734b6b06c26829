------------------------------ MODULE DiagOps ------------------------------
(* What the diagnostics are meant to report: the reductions over a grid that is spread over processes, and particles
   crossing a moving plane.  Used with integers by the model (Diags.tla). *)
EXTENDS Integers, Sequences, FiniteSets

(* A ring of N nodes is cut at c[1] = 0 < c[2] < ... < c[P+1] = N: process p stores the nodes c[p] .. c[p+1], the last of which
   is the first of its neighbour.  A sum over the ring counts the nodes 1..n of every process, or the nodes 0..n-1. *)
Stored(N, c, p) == [i \in 0..(c[p + 1] - c[p]) |-> (c[p] + i) % N]
Upper(N, c, p) == {Stored(N, c, p)[i] : i \in 1..(c[p + 1] - c[p])}
Lower(N, c, p) == {Stored(N, c, p)[i] : i \in 0..(c[p + 1] - c[p] - 1)}

(* A particle is caught when it was behind the plane or on it, and is in front of it now. *)
Caught(old, new) == old <= 0 /\ new > 0
Back(old, new) == old > 0 /\ new <= 0
=============================================================================
