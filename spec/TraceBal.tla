------------------------------ MODULE TraceBal ------------------------------
(* Checks recorded load balancing of the real library against BalOps.
   cfg: dim, n (cells), np (processes on the axes), h, x0; part: what every rank holds; timing; split: the new cells of every process on
   every axis; cuts: the script's own new cells; remap: field and particles of every rank after the move. Lengths in units of 1/64. *)
EXTENDS BalOps, TraceIO

VARIABLES cfg, held, cuts, props, l
tvars == <<cfg, held, cuts, props, l>>

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

BalInit == l = 1 /\ cfg = <<>> /\ held = <<>> /\ cuts = <<>> /\ props = <<>>
Axes == IF cfg.dim = 2 THEN <<1, 3>> ELSE <<1, 2, 3>>
AxisSet == ToSet(Axes)
Begin == Is("cfg") /\ cfg' = E /\ cuts' = E.cuts /\ held' = <<>> /\ props' = E.props

Bag(list) == {<<list[i].sp, list[i].x, list[i].u, list[i].a>> : i \in DOMAIN list}
Rank(r) == cfg.at[r + 1]    \* its place on the axes
Low(a, c) == cfg.x0[a] + c * cfg.h[a]
InBox(q, cc) == \A a \in AxisSet : LET s == cc[a][Rank(q.r)[a] + 1] IN Low(a, s[1]) <= q.x[a] /\ q.x[a] < Low(a, s[2] + 1)
Counters == \A c \in 1..Len(E.count) : E.count[c][3] = Cardinality({i \in DOMAIN E.list : E.list[i].r = E.count[c][1] /\ E.list[i].sp = E.count[c][2]})

Part ==
  /\ Is("part")
  /\ TRUE = (/\ Cardinality(Bag(E.list)) = Len(E.list)
             /\ \A i \in DOMAIN E.list : InBox(E.list[i], cuts))
  /\ held' = E.list /\ UNCHANGED <<cfg, cuts, props>>

(* rank r spends t*(r+1): the mean time per particle and per cell of all ranks, the same on every rank *)
Close(x, num, den) == Abs(x * den - num) <= den
Timing ==
  /\ Is("timing")
  /\ LET R == Len(cfg.at)
         n == Len(held)
         mine(r) == Cardinality({i \in DOMAIN held : held[i].r = r})
         busy == SumSeq([r \in 1..R |-> IF mine(r - 1) = 0 THEN 0 ELSE r])
         cells == IF cfg.dim = 2 THEN cfg.n[1] * cfg.n[3] ELSE cfg.n[1] * cfg.n[2] * cfg.n[3]
     IN TRUE = (\A r \in 1..R : /\ E.m[r][1] = mine(r - 1) /\ E.m[r][2] = n
                                /\ IF n = 0 THEN E.m[r][3] = 0 ELSE Close(E.m[r][3], E.t * busy * 65536, n)
                                /\ Close(E.m[r][4], E.c * ((R * (R + 1)) \div 2) * 65536, cells))
  /\ UNCHANGED <<cfg, held, cuts, props>>

Others(a) == FoldLeft(LAMBDA x, b : IF b = a THEN x ELSE x * cfg.n[b], 1, Axes)
Load(a) ==
  [c \in 0..(cfg.n[a] - 1) |->
     E.tpc * Others(a) + E.tpp * Cardinality({i \in DOMAIN held : (held[i].x[a] - cfg.x0[a]) \div cfg.h[a] = c})]
Split ==
  /\ Is("split")
  /\ TRUE = (\A r \in 1..Len(E.new) : \A a \in AxisSet : E.new[r][a] = Share(TLCEval(Load(a)), cfg.n[a], cfg.np[a], 0, 0))
  /\ cuts' = [a \in 1..3 |-> IF a \in AxisSet THEN E.new[1][a] ELSE cuts[a]]
  /\ UNCHANGED <<cfg, held, props>>

Cuts == Is("cuts") /\ cuts' = [cuts EXCEPT ![E.axis] = E.new] /\ UNCHANGED <<cfg, held, props>>

(* node (i, j, k) of the whole grid holds i + 100 j + 10000 k; the array of a rank, guards included, is given row by row *)
Field(f, r) ==
  LET g == f.g
      lo == [a \in 1..3 |-> IF a \in AxisSet THEN cuts[a][Rank(r)[a] + 1][1] ELSE 0]
      m == [a \in 1..3 |-> IF a \in AxisSet THEN cuts[a][Rank(r)[a] + 1][2] - lo[a] + 1 ELSE 0]   \* cells
      w == [a \in 1..3 |-> m[a] + 1 + 2 * g[a]]
      N(n, a) == IF a = 1 THEN (n - 1) % w[1] ELSE IF a = 2 THEN ((n - 1) \div w[1]) % w[2] ELSE (n - 1) \div (w[1] * w[2])
  IN /\ Len(f.v) = w[1] * w[2] * w[3]
     /\ \A n \in 1..Len(f.v) :
          LET i == N(n, 1) - g[1]
              j == N(n, 2) - g[2]
              k == N(n, 3) - g[3]
          IN f.v[n] = IF 0 <= i /\ i <= m[1] /\ 0 <= j /\ j <= m[2] /\ 0 <= k /\ k <= m[3]
                      THEN (lo[1] + i) + 100 * (lo[2] + j) + 10000 * (lo[3] + k) ELSE -5

Remap ==
  /\ Is("remap")
  /\ TRUE = (/\ \A r \in 1..Len(E.f) : Field(E.f[r], r - 1)
             /\ Cardinality(Bag(E.list)) = Len(E.list)
             /\ Bag(E.list) = Bag(held)
             /\ \A i \in DOMAIN E.list : InBox(E.list[i], cuts)
             /\ Counters
             /\ \A r \in 1..Len(E.props) : E.props[r] = props)
  /\ held' = E.list /\ UNCHANGED <<cfg, cuts, props>>

BalNext == Begin \/ Part \/ Timing \/ Split \/ Cuts \/ Remap
BalSpec == BalInit /\ [][BalNext]_tvars
=============================================================================
