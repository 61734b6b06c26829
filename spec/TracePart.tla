------------------------------ MODULE TracePart ------------------------------
(* Checks the exchanges of particles recorded from the real library against PartExchange.
   Events: cfg (domain, boundary kinds, ranks' boxes, tiling), add and move (the script's own), part (everything every
   rank holds, before any exchange) and bcs (one exchange: everything every rank holds after it, and the counters).
   Lengths in units of 1/cfg.s. *)
EXTENDS PartExchange, TraceIO

VARIABLES cfg, held, l
tvars == <<vars, cfg, held, l>>
Idle == UNCHANGED vars

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e /\ l' = l + 1

TraceInit ==
  /\ l = 1 /\ cfg = <<>> /\ held = <<>>
  /\ kind = <<>> /\ pos = <<>> /\ mom = <<>> /\ at = <<>> /\ done = {} /\ net = {} /\ count = <<>> /\ old = <<>> /\ phase = "rest"

Begin == Is("cfg") /\ cfg' = E /\ held' = <<>> /\ Idle
TAxes == IF cfg.dim = 2 THEN {1, 3} ELSE {1, 2, 3}

(* held: <<species, id>> -> [x, u, a]: position, momentum, other attributes *)
Key(q) == <<q.sp, q.id>>
TAdd ==
  /\ Is("add")
  /\ Key(E) \notin DOMAIN held
  /\ held' = (Key(E) :> [x |-> E.x, u |-> E.u, a |-> E.a]) @@ held
  /\ UNCHANGED cfg /\ Idle

TMove ==
  /\ Is("move")
  /\ held' = [k \in DOMAIN held |-> IF k[2] = E.id THEN [held[k] EXCEPT !.x = [b \in 1..3 |-> @[b] + E.d[b]]] ELSE held[k]]
  /\ UNCHANGED cfg /\ Idle

(* a particle is where its position says: the rank whose box holds it, the tile of its nearest node *)
NodeTile(x, lo, h, m, t) ==
  LET n1 == IF m \div t < 4 THEN 1 ELSE t
      k == ((2 * (x - lo) + h) \div (2 * h)) \div (m \div n1) + 1
  IN IF k > n1 THEN n1 ELSE k
InPlace(q, anytile) ==
  \A a \in TAxes :
    LET lo == cfg.lo[q.r + 1][a]
        hi == cfg.hi[q.r + 1][a]
        m == (hi - lo) \div cfg.h[a] + 1
    IN /\ lo <= q.x[a] /\ q.x[a] < hi
       /\ ~anytile => q.t[a] = NodeTile(q.x[a], lo, cfg.h[a], m, cfg.nt[a])

Counters == \A c \in 1..Len(E.count) : E.count[c][3] = Cardinality({i \in DOMAIN E.list : E.list[i].r = E.count[c][1] /\ E.list[i].sp = E.count[c][2]})
NoTwice == Cardinality({Key(E.list[i]) : i \in DOMAIN E.list}) = Len(E.list)

(* the checks are values (TRUE = ...), so that TLC does not split them in several transitions *)
TPart ==
  /\ Is("part")
  /\ TRUE = (/\ NoTwice
             /\ {Key(E.list[i]) : i \in DOMAIN E.list} = DOMAIN held
             /\ \A i \in DOMAIN E.list : LET q == E.list[i] h == held[Key(q)]
                                        IN q.x = h.x /\ q.u = h.u /\ q.a = h.a /\ (cfg.strict = 1 => InPlace(q, FALSE))
             /\ Counters)
  /\ UNCHANGED <<cfg, held>> /\ Idle

Exchanged ==
  LET keys == {Key(E.list[i]) : i \in DOMAIN E.list} IN
  /\ NoTwice
  /\ keys \subseteq DOMAIN held
  /\ \A k \in DOMAIN held \ keys : MayGo(CrossedKinds(held[k].x, cfg.plo, cfg.phi, cfg.kind, TAxes))
  /\ \A i \in DOMAIN E.list :
       LET q == E.list[i]
           h == held[Key(q)]
           ks == CrossedKinds(h.x, cfg.plo, cfg.phi, cfg.kind, TAxes)
       IN /\ ~MustGo(ks)
          /\ Stays(h.x, h.u, q.x, q.u, cfg.plo, cfg.phi, cfg.kind, TAxes, cfg.h, ks)
          /\ (3 \notin ks) => q.a = h.a
          \* a reflected or reinjected particle may stay in the tile it comes from until the next exchange
          /\ InPlace(q, 2 \in ks \/ 3 \in ks)
  /\ Counters

TBcs ==
  /\ Is("bcs")
  /\ TRUE = Exchanged
  /\ held' = [k \in {Key(E.list[i]) : i \in DOMAIN E.list} |->
               LET q == E.list[CHOOSE i \in DOMAIN E.list : Key(E.list[i]) = k] IN [x |-> q.x, u |-> q.u, a |-> q.a]]
  /\ UNCHANGED cfg /\ Idle

TraceNext == Begin \/ TAdd \/ TMove \/ TPart \/ TBcs
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
