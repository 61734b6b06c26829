----------------------------- MODULE TraceDecomp -----------------------------
(* Checks what the real library set up on every rank (process grid, cells, boxes, neighbours, tiles) against the
   design of Decomp.  Lengths are in units of 1/64 cell size unit (cfg.s per cell). *)
EXTENDS Decomp, TraceIO

VARIABLES cfg, l
tvars == <<vars, cfg, l>>

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

TraceInit ==
  /\ l = 1
  /\ cfg = <<>>
  /\ n = <<1, 1, 1>> /\ p = <<1, 1, 1>> /\ place = <<>> /\ cuts = <<>> /\ tiles = <<1, 1, 1>> /\ phase = "done"

Begin ==
  /\ Is("cfg")
  /\ cfg' = E
  /\ n' = E.n /\ p' = E.p /\ tiles' = E.t
  /\ place' = <<>> /\ cuts' = <<>> /\ phase' = "place"

TPlace == Is("place") /\ E.r = Len(place) /\ Place(E.c) /\ UNCHANGED cfg
TCut == Is("cut") /\ E.a = Len(cuts) + 1 /\ CutAxis(E.cut) /\ UNCHANGED cfg

Off(i) == <<((i - 1) % 3) - 1, (((i - 1) \div 3) % 3) - 1, ((i - 1) \div 9) - 1>>
NoProc == -2                                     \* MPI_PROC_NULL

(* one rank's own view of its domain *)
TRank ==
  /\ Is("rank") /\ phase = "done"
  /\ LET r == E.r
         c == place[r + 1]
     IN /\ E.c = c
        /\ E.np = p /\ E.nproc = Len(place)
        /\ \A a \in 1..3 :
             LET f == cuts[a][c[a] + 1]
                 g == cuts[a][c[a] + 2]
             IN ~(cfg.dim = 2 /\ a = 2) => (
                /\ E.cell[a] = cuts[a]                        \* every rank agrees on the cuts
                /\ E.nl[a] = g - f
                /\ E.gmin[a] = f /\ E.gmax[a] = g
                /\ E.lo[a] = cfg.x0[a] + f * cfg.h[a]
                /\ E.hi[a] = cfg.x0[a] + g * cfg.h[a]
                /\ \A i \in 1..p[a] : E.edge[a][i] = <<cfg.x0[a] + cuts[a][i] * cfg.h[a], cfg.x0[a] + cuts[a][i + 1] * cfg.h[a]>>
                /\ E.bd[2 * a - 1] = (IF c[a] = 0 THEN 1 ELSE 0)
                /\ E.bd[2 * a] = (IF c[a] = p[a] - 1 THEN 1 ELSE 0)
                \* face neighbour used for the fields: none beyond an open face
                /\ \A s \in {0, 1} :
                     LET o == [b \in 1..3 |-> IF b = a THEN 2 * s - 1 ELSE 0]
                         open == cfg.open[a] = 1 /\ E.bd[2 * a - 1 + s] = 1
                     IN E.pr[2 * a - 1 + s] = IF open THEN NoProc ELSE RankAt(Shift(c, o, p)) - 1)
        /\ \A i \in 1..27 : E.nb[i] = RankAt(Shift(c, Off(i), p)) - 1
  /\ UNCHANGED <<vars, cfg>>

(* one tile of one rank: i = index, k = number of tiles, per axis *)
TTile ==
  /\ Is("tile") /\ phase = "done"
  /\ LET c == place[E.r + 1] IN
     \A a \in 1..3 :
       LET f == cuts[a][c[a] + 1]
           g == cuts[a][c[a] + 2]
           m == g - f + 1
           t == tiles[a]
           k == TileCount(m, t)
           i == E.i[a]
           lo == cfg.x0[a] + f * cfg.h[a]
           hi == cfg.x0[a] + g * cfg.h[a]
       IN ~(cfg.dim = 2 /\ a = 2) => (
          /\ E.k[a] = k /\ 1 <= i /\ i <= k
          /\ E.first[a] = TileFirst(m, t, i) /\ E.last[a] = TileLast(m, t, i)
          /\ E.nn[a] = TileLast(m, t, i) - TileFirst(m, t, i) + 1
          /\ E.nc[a] = E.nn[a] - 1
          /\ E.glo[a] = lo + E.first[a] * cfg.h[a] /\ E.ghi[a] = lo + E.last[a] * cfg.h[a]
          /\ 2 * E.lo[a] = (IF i = 1 THEN 2 * lo ELSE 2 * E.glo[a] - cfg.h[a])
          /\ 2 * E.hi[a] = (IF i = k THEN 2 * hi ELSE 2 * E.ghi[a] + cfg.h[a]))
  /\ (E.edge = 1) <=> (\E a \in 1..3 : ~(cfg.dim = 2 /\ a = 2) /\ (E.i[a] = 1 \/ E.i[a] = E.k[a]))
  /\ UNCHANGED <<vars, cfg>>

(* all tiles of a rank were reported *)
TTiles ==
  /\ Is("tiles")
  /\ E.count = E.k[1] * E.k[2] * E.k[3]
  /\ UNCHANGED <<vars, cfg>>

TraceNext == Begin \/ TPlace \/ TCut \/ TRank \/ TTile \/ TTiles
TraceSpec == TraceInit /\ [][TraceNext]_tvars
(* the design's own invariants, on the recorded set-ups *)
TraceNeighbours == NeighboursMutual
=============================================================================
