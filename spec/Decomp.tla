------------------------------- MODULE Decomp -------------------------------
(* Division of the global grid between the ranks of a process grid, and of a rank's domain between its tiles.

   Design level: the ranks take places in a process grid one after the other (in rank order or in any order,
   the topologies), the cells of every axis are cut in one chunk per place, and a rank's nodes in one chunk per
   tile.  Two axes are enough for the exhaustive runs; the operators take the number of axes as it comes.

   What the real code reports for every rank is checked against the same operators by TraceDecomp. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxN, MaxP, MaxT

(* ---- operators shared with the trace specification ---- *)

(* Cuts of n cells in p contiguous chunks: cut[i] is the first cell of chunk i, cut[p+1] = n *)
IsCut(cut, n, p) ==
  /\ Len(cut) = p + 1
  /\ cut[1] = 0
  /\ cut[p + 1] = n
  /\ \A i \in 1..p : cut[i] < cut[i + 1]

(* the sizes differ by at most one cell *)
IsEven(cut, p) == \A i, j \in 1..p : (cut[i + 1] - cut[i]) - (cut[j + 1] - cut[j]) <= 1

Balanced(cut, n, p) == IsCut(cut, n, p) /\ IsEven(cut, p)

Wrap(c, p) == c % p                             \* TLA+ modulus: never negative

(* coordinate of the neighbour at offset o (a sequence) of coordinate c in the periodic process grid p *)
Shift(c, o, p) == [a \in DOMAIN c |-> Wrap(c[a] + o[a], p[a])]

(* index (1-based) of the chunk that holds cell k *)
ChunkOf(cut, k) == CHOOSE i \in 1..(Len(cut) - 1) : cut[i] <= k /\ k < cut[i + 1]

(* Tiles: m nodes, t tiles asked for; fewer than 4 nodes per tile means one tile; the last tile takes the rest *)
TileCount(m, t) == IF m \div t < 4 THEN 1 ELSE t
TileLen(m, t) == m \div TileCount(m, t)
TileFirst(m, t, i) == (i - 1) * TileLen(m, t)                                       \* first node of tile i
TileLast(m, t, i) == IF i = TileCount(m, t) THEN m - 1 ELSE i * TileLen(m, t) - 1   \* last node of tile i
(* tile of a position, in half cells from the lower bound of the domain: the tile of the nearest node *)
TileOfPos(m, t, h2) == LET k == ((h2 + 1) \div 2) \div TileLen(m, t) + 1
                       IN IF k > TileCount(m, t) THEN TileCount(m, t) ELSE k

(* ---- the design ---- *)
VARIABLES n, p, place, cuts, tiles, phase
vars == <<n, p, place, cuts, tiles, phase>>
Axes == DOMAIN p
NRanks == IF Len(p) = 2 THEN p[1] * p[2] ELSE p[1] * p[2] * p[3]
InGrid(c) == \A a \in Axes : 0 <= c[a] /\ c[a] < p[a]

Init ==
  /\ p \in [1..2 -> 1..MaxP]
  /\ n \in [1..2 -> 1..MaxN]
  /\ \A a \in Axes : n[a] >= p[a]
  /\ place = <<>>
  /\ cuts = <<>>
  /\ tiles \in [1..2 -> 1..MaxT]
  /\ tiles[1] <= tiles[2]
  /\ phase = "place"

(* the next rank takes a free place: any one (random topology), of which rank order is a special case *)
Place(c) ==
  /\ phase = "place"
  /\ InGrid(c)
  /\ \A r \in DOMAIN place : place[r] # c
  /\ place' = Append(place, c)
  /\ phase' = IF Len(place) + 1 = NRanks THEN "cut" ELSE "place"
  /\ UNCHANGED <<n, p, cuts, tiles>>

(* the next axis is cut: in any balanced way *)
CutAxis(cut) ==
  /\ phase = "cut"
  /\ LET a == Len(cuts) + 1
     IN /\ Balanced(cut, n[a], p[a])
        /\ phase' = IF a = Len(p) THEN "done" ELSE "cut"
  /\ cuts' = Append(cuts, cut)
  /\ UNCHANGED <<n, p, place, tiles>>

SomeCuts == UNION {[1..k -> 0..MaxN] : k \in 2..(MaxP + 1)}
Done == phase = "done" /\ UNCHANGED vars
Next ==
  \/ \E c \in [Axes -> 0..(MaxP - 1)] : Place(c)
  \/ \E cut \in SomeCuts : CutAxis(cut)
  \/ Done
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK == phase \in {"place", "cut", "done"} /\ Len(place) <= NRanks /\ Len(cuts) <= Len(p)

(* every cell of the grid belongs to exactly one rank, and the chunks are balanced *)
CellsOwnedOnce ==
  phase = "done" =>
    /\ \A a \in Axes : Balanced(cuts[a], n[a], p[a])
    /\ \A x \in 0..(n[1] - 1), y \in 0..(n[2] - 1) :
         Cardinality({r \in DOMAIN place : /\ ChunkOf(cuts[1], x) = place[r][1] + 1
                                           /\ ChunkOf(cuts[2], y) = place[r][2] + 1}) = 1

(* neighbour relations are mutual: the neighbour at +o sees this rank at -o; and they are adjacent chunks or wrap *)
RankAt(c) == CHOOSE r \in DOMAIN place : place[r] = c
Nb(r, o) == RankAt(Shift(place[r], o, p))
NeighboursMutual ==
  phase = "done" =>
    \A r \in DOMAIN place : \A o \in [Axes -> -1..1] : Nb(Nb(r, o), [a \in Axes |-> -o[a]]) = r

(* the tiles of a domain of m nodes hold every node once, and the tile of a position is the tile of its nearest node *)
TilesPartition ==
  \A m \in 2..(MaxN + 1) : \A t \in {tiles[1], tiles[2]} :
    /\ \A k \in 0..(m - 1) : Cardinality({i \in 1..TileCount(m, t) : TileFirst(m, t, i) <= k /\ k <= TileLast(m, t, i)}) = 1
    /\ \A h \in 0..(2 * (m - 1) - 1) : LET k == (h + 1) \div 2 i == TileOfPos(m, t, h)
                                       IN TileFirst(m, t, i) <= k /\ k <= TileLast(m, t, i)
=============================================================================
