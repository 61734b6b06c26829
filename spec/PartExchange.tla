---------------------------- MODULE PartExchange ----------------------------
(* Exchange of particles between the ranks of a process grid after a push.

   Design level: a box cut in P[1] x P[2] rank domains of W positions each.  Particles are pushed by less than a
   domain, then every rank classifies each of its particles (below, inside, above, on each axis), applies the boundary
   condition of the faces of the box it crossed (0 periodic, 1 absorbing, 2 reflecting, 3 reinjecting) and sends it to
   the one of its neighbours that lies in that direction.  Messages are received in any order; the exchange ends when
   all ranks have classified all of theirs and no message is left.  The counter of each rank follows what it holds.

   The relation Outcome(...), between a particle before and after one exchange, is what the trace specification
   TracePart checks on the real library. *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- one particle, any units: pos/lo/hi/step are sequences over the axes; kind[2a-1], kind[2a] = lower, upper ---- *)
Below(pos, lo, a) == pos[a] < lo[a]
Above(pos, hi, a) == pos[a] >= hi[a]
CrossedKinds(pos, lo, hi, kind, axes) ==
  {kind[2 * a - 1] : a \in {b \in axes : Below(pos, lo, b)}} \cup {kind[2 * a] : a \in {b \in axes : Above(pos, hi, b)}}
KindAt(pos, lo, hi, kind, a) ==
  IF Below(pos, lo, a) THEN kind[2 * a - 1] ELSE IF Above(pos, hi, a) THEN kind[2 * a] ELSE -1

(* a particle may leave the simulation / must leave the simulation *)
MayGo(ks) == 1 \in ks
MustGo(ks) == 1 \in ks /\ 3 \notin ks

WrapPos(x, lo, hi) == lo + ((x - lo) % (hi - lo))

(* momentum u and position q after the exchange, for a particle that stays in the simulation.
   step[a] is the cell size: a reflected particle comes back at most one cell inside; a reinjected one is put at rest,
   mirrored, and kept inside its tile (so at most one cell away from the mirror image on the other axes) *)
Stays(pos, u, q, v, lo, hi, kind, axes, step, ks) ==
  IF 3 \in ks
  THEN /\ \A a \in DOMAIN v : v[a] = 0
       \* through an edge or a corner only the first face is sure to be treated at once
       /\ Cardinality({a \in axes : KindAt(pos, lo, hi, kind, a) # -1}) = 1 =>
          \A a \in axes :
            LET k == KindAt(pos, lo, hi, kind, a) IN
            /\ lo[a] <= q[a] /\ q[a] <= hi[a]
            /\ q[a] = hi[a] => pos[a] = hi[a]          \* the mirror image of the face itself
            /\ k = 3 => IF Below(pos, lo, a) THEN q[a] <= lo[a] + 2 * step[a] ELSE q[a] >= hi[a] - 2 * step[a]
            /\ k = -1 => q[a] - pos[a] <= 2 * step[a] /\ pos[a] - q[a] <= 2 * step[a]
  ELSE /\ \A a \in axes :
            CASE KindAt(pos, lo, hi, kind, a) = -1 -> q[a] = pos[a]
              [] KindAt(pos, lo, hi, kind, a) = 0 -> q[a] = WrapPos(pos[a], lo[a], hi[a])
              [] KindAt(pos, lo, hi, kind, a) = 2 ->
                   IF Below(pos, lo, a) THEN lo[a] <= q[a] /\ q[a] <= lo[a] + step[a]
                   ELSE hi[a] - step[a] <= q[a] /\ q[a] < hi[a]
              [] OTHER -> FALSE
       /\ \A a \in DOMAIN v : v[a] = IF a \in axes /\ KindAt(pos, lo, hi, kind, a) = 2 THEN -u[a] ELSE u[a]

(* ---- the design ---- *)
CONSTANTS P1, P2, W, Parts, Kinds
VARIABLES
  kind,     \* boundary kinds of the four faces
  pos,      \* position of each particle (its last one, for those that left)
  mom,      \* momentum sign of each particle, per axis
  at,       \* rank that holds it: <<i, j>>, or Net, or Out (below)
  done,     \* classified in this exchange
  net,      \* set of messages <<particle, rank>>
  count,    \* counter of particles of each rank
  old,      \* position and momentum at the beginning of this exchange
  phase     \* "rest", "exch"
vars == <<kind, pos, mom, at, done, net, count, old, phase>>

Axes == {1, 2}
Net == <<-1, 0>>                                 \* in a message
Out == <<-2, 0>>                                 \* left the simulation
Ranks == (0..(P1 - 1)) \X (0..(P2 - 1))
PP == <<P1, P2>>
Lo == <<0, 0>>
Hi == <<P1 * W, P2 * W>>
RLo(r) == <<r[1] * W, r[2] * W>>
RHi(r) == <<(r[1] + 1) * W, (r[2] + 1) * W>>
Owner(q) == <<q[1] \div W, q[2] \div W>>
Sites == (0..(P1 * W - 1)) \X (0..(P2 * W - 1))

Init ==
  /\ kind \in [1..4 -> Kinds]
  /\ \A a \in Axes : kind[2 * a - 1] = 0 <=> kind[2 * a] = 0
  /\ pos \in [Parts -> Sites]
  /\ mom = [i \in Parts |-> <<1, 1>>]
  /\ at = [i \in Parts |-> Owner(pos[i])]
  /\ done = {}
  /\ net = {}
  /\ count = [r \in Ranks |-> Cardinality({i \in Parts : at[i] = r})]
  /\ old = <<pos, mom>>
  /\ phase = "rest"

(* all particles move, by at most one position per axis *)
Push(d) ==
  /\ phase = "rest"
  /\ pos' = [i \in Parts |-> IF at[i] = Out THEN pos[i] ELSE <<pos[i][1] + d[i][1], pos[i][2] + d[i][2]>>]
  /\ old' = <<pos', mom>>
  /\ done' = {i \in Parts : at[i] = Out}
  /\ phase' = "exch"
  /\ UNCHANGED <<kind, mom, at, net, count>>

Side(i, r, a) == IF pos[i][a] < RLo(r)[a] THEN -1 ELSE IF pos[i][a] >= RHi(r)[a] THEN 1 ELSE 0
AtFace(r, a, s) == IF s = -1 THEN r[a] = 0 ELSE r[a] = PP[a] - 1

Classify(i) ==
  /\ phase = "exch" /\ i \notin done /\ at[i] \in Ranks
  /\ LET r == at[i]
         s == [a \in Axes |-> Side(i, r, a)]
         k == [a \in Axes |-> IF s[a] # 0 /\ AtFace(r, a, s[a]) THEN kind[2 * a + (s[a] - 1) \div 2] ELSE -1]
         ks == {k[a] : a \in Axes}
         np == [a \in Axes |-> CASE k[a] = 0 -> WrapPos(pos[i][a], Lo[a], Hi[a])
                                 [] k[a] \in {2, 3} -> pos[i][a] - s[a]
                                 [] OTHER -> pos[i][a]]
         off == [a \in Axes |-> IF k[a] \in {2, 3} THEN 0 ELSE s[a]]
     IN IF 1 \in ks
        THEN /\ at' = [at EXCEPT ![i] = Out]
             /\ count' = [count EXCEPT ![r] = @ - 1]
             /\ UNCHANGED <<pos, mom, net>>
        ELSE /\ pos' = [pos EXCEPT ![i] = <<np[1], np[2]>>]
             /\ mom' = [mom EXCEPT ![i] = IF 3 \in ks THEN <<0, 0>>
                                           ELSE [a \in Axes |-> IF k[a] = 2 THEN -mom[i][a] ELSE mom[i][a]]]
             /\ IF off = <<0, 0>>
                THEN UNCHANGED <<at, net, count>>
                ELSE LET t == <<(r[1] + off[1]) % P1, (r[2] + off[2]) % P2>>
                     IN /\ net' = net \cup {<<i, t>>}
                        /\ at' = [at EXCEPT ![i] = Net]
                        /\ count' = [count EXCEPT ![r] = @ - 1]
  /\ done' = done \cup {i}
  /\ UNCHANGED <<kind, old, phase>>

Recv(m) ==
  /\ phase = "exch" /\ m \in net
  /\ net' = net \ {m}
  /\ at' = [at EXCEPT ![m[1]] = m[2]]
  /\ count' = [count EXCEPT ![m[2]] = @ + 1]
  /\ UNCHANGED <<kind, pos, mom, done, old, phase>>

Finish ==
  /\ phase = "exch" /\ done = Parts /\ net = {}
  /\ phase' = "rest"
  /\ done' = {}
  /\ UNCHANGED <<kind, pos, mom, at, net, count, old>>

Moves == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<-1, -1>>, <<1, -1>>}
Next == (\E d \in [Parts -> Moves] : Push(d)) \/ (\E i \in Parts : Classify(i)) \/ (\E m \in net : Recv(m)) \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
TypeOK ==
  /\ phase \in {"rest", "exch"}
  /\ \A i \in Parts : at[i] \in Ranks \cup {Net, Out}

(* a particle is in one place: with a rank, in one message, or gone *)
OnePlace == \A i \in Parts : Cardinality({m \in net : m[1] = i}) = (IF at[i] = Net THEN 1 ELSE 0)

(* when the exchange is over every particle left is held by the rank that owns its position *)
Delivered == phase = "rest" => \A i \in Parts : at[i] # Out => at[i] \in Ranks /\ pos[i] \in Sites /\ at[i] = Owner(pos[i])

Counted == \A r \in Ranks : count[r] = Cardinality({i \in Parts : at[i] = r})

(* every exchange, seen as one step, is one the relation used on the real traces allows *)
OutcomeOK ==
  (phase = "rest") =>
    \A i \in Parts :
      LET ks == CrossedKinds(old[1][i], Lo, Hi, kind, Axes) IN
      IF at[i] = Out THEN MayGo(ks)
      ELSE ~MustGo(ks) /\ Stays(old[1][i], old[2][i], pos[i], mom[i], Lo, Hi, kind, Axes, <<1, 1>>, ks)
=============================================================================
