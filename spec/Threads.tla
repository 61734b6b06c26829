------------------------------ MODULE Threads ------------------------------
(* OpenMP threads depose the charge (or current) of tiles.  Every tile holds an array of its own: its nodes and G guard
   nodes around them.  Threads take tiles in any order: in the phase "core" they add the nodes of the tile to the grid, in
   the phases "x" and "z" its guard nodes (in "x" with the guard nodes of the corners); a barrier ends each phase.
   Adding is a copy of the region of the grid, then a write: two threads that do it on the same nodes lose an update.
   With Locked, at most one thread adds guard nodes at a time (the critical section of the code).
   Whatever the schedule, every node ends with the sum of what all the tiles hold there. *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS NT,     (* threads *)
          CX, CZ, (* the cuts of the box in tiles: the first node of each tile, then the number of nodes *)
          G,      (* guard nodes of a tile *)
          Locked

Phases == <<"core", "x", "z">>
Tiles == (1 .. Len(CX) - 1) \X (1 .. Len(CZ) - 1)
Lo(c, i) == c[i]
Hi(c, i) == c[i + 1] - 1
XS == (CX[1] - G) .. (CX[Len(CX)] - 1 + G)
ZS == (CZ[1] - G) .. (CZ[Len(CZ)] - 1 + G)
Nodes == XS \X ZS
CoreX(t) == Lo(CX, t[1]) .. Hi(CX, t[1])
CoreZ(t) == Lo(CZ, t[2]) .. Hi(CZ, t[2])
ExtX(t) == (Lo(CX, t[1]) - G) .. (Hi(CX, t[1]) + G)
ExtZ(t) == (Lo(CZ, t[2]) - G) .. (Hi(CZ, t[2]) + G)
Block(t) == ExtX(t) \X ExtZ(t)

(* the nodes to which a tile adds in a phase *)
Region(t, p) ==
  CASE p = "core" -> CoreX(t) \X CoreZ(t)
    [] p = "x" -> (ExtX(t) \ CoreX(t)) \X ExtZ(t)
    [] p = "z" -> CoreX(t) \X (ExtZ(t) \ CoreZ(t))

(* what a tile holds at a node: different tiles are told apart *)
Held(t) == t[1] + 4 * (t[2] - 1)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN f[t] + Sum(S \ {t}, f)
Right == [n \in Nodes |-> LET S == {t \in Tiles : n \in Block(t)} IN Sum(S, [t \in S |-> Held(t)])]

VARIABLES ph, todo, job, copy, grid
vars == <<ph, todo, job, copy, grid>>

None == <<0, 0>>
Init == ph = 1 /\ todo = Tiles /\ job = [i \in 1 .. NT |-> None] /\ copy = [i \in 1 .. NT |-> <<>>] /\ grid = [n \in Nodes |-> 0]

Busy == {i \in 1 .. NT : job[i] # None}
P == Phases[ph]

Read(i) == /\ job[i] = None
           /\ Locked /\ P # "core" => Busy = {}
           /\ \E t \in todo : /\ job' = [job EXCEPT ![i] = t]
                              /\ todo' = todo \ {t}
                              /\ copy' = [copy EXCEPT ![i] = [n \in Region(t, P) |-> grid[n]]]
           /\ UNCHANGED <<ph, grid>>
Write(i) == /\ job[i] # None
            /\ grid' = [n \in Nodes |-> IF n \in Region(job[i], P) THEN copy[i][n] + Held(job[i]) ELSE grid[n]]
            /\ job' = [job EXCEPT ![i] = None]
            /\ copy' = [copy EXCEPT ![i] = <<>>]
            /\ UNCHANGED <<ph, todo>>
Barrier == /\ todo = {} /\ Busy = {} /\ ph < Len(Phases)
           /\ ph' = ph + 1 /\ todo' = Tiles
           /\ UNCHANGED <<job, copy, grid>>
Next == Barrier \/ \E i \in 1 .. NT : Read(i) \/ Write(i)
Spec == Init /\ [][Next]_vars

(* ---- what is checked ------------------------------------------------------------------------------------------- *)
RaceFree == \A i, k \in Busy : i # k => Region(job[i], P) \cap Region(job[k], P) = {}
Final == ph = Len(Phases) /\ todo = {} /\ Busy = {} => grid = Right
(* the phases add every node of a tile's array, once *)
Partition == \A t \in Tiles : /\ UNION {Region(t, p) : p \in {"core", "x", "z"}} = Block(t)
                              /\ \A p, q \in {"core", "x", "z"} : p # q => Region(t, p) \cap Region(t, q) = {}
ASSUME Partition
(* the nodes of the tiles are told apart: the phase "core" needs no lock *)
ASSUME \A t, u \in Tiles : t # u => Region(t, "core") \cap Region(u, "core") = {}

C3 == <<0, 2, 4, 5>>
C2 == <<0, 2, 5>>
C1 == <<0, 3>>
=============================================================================
