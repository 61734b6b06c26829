------------------------------ MODULE TraceSort ------------------------------
(* Checks recorded particle sorts of the real library against SortOps.
   Events: cfg (tiles' bounds, sorting grid), part (everything every rank holds, tile by tile, in order) and sort (the same after a call
   of the sort at iteration it). tiles: sequence of [k, lo, hi] with k = <<rank, i, j, k>>; list: sequence of [k, sp, q] with q the
   tile's particles in order. Lengths in units of 1/64. *)
EXTENDS SortOps, TraceIO

VARIABLES cfg, held, l
tvars == <<cfg, held, l>>

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

SortInit == l = 1 /\ cfg = <<>> /\ held = <<>>
Begin == Is("cfg") /\ cfg' = E /\ held' = <<>>
Part == Is("part") /\ held' = E.list /\ UNCHANGED cfg

Axes == IF cfg.dim = 2 THEN <<3, 1>> ELSE <<3, 2, 1>>
Tile(k) == cfg.tiles[CHOOSE n \in 1..Len(cfg.tiles) : cfg.tiles[n].k = k]

SortedTile(old, new) ==
  LET t == Tile(old.k)
  IN /\ new.k = old.k /\ new.sp = old.sp
     /\ IF Due(E.on, E.it, E.period[old.sp], E.start[old.sp])
        THEN StableSorted(old.q, new.q, LAMBDA p : Word(p.x, Axes, t.lo, t.hi, cfg.shift, cfg.d))
        ELSE new.q = old.q

Sort ==
  /\ Is("sort")
  /\ TRUE = (/\ Len(E.list) = Len(held)
             /\ \A n \in 1..Len(held) : SortedTile(held[n], E.list[n]))
  /\ held' = E.list /\ UNCHANGED cfg

SortNext == Begin \/ Part \/ Sort
SortSpec == SortInit /\ [][SortNext]_tvars
=============================================================================
