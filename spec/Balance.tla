------------------------------- MODULE Balance ------------------------------
(* Load balancing of a line of N cells over NP processes: the cells are shared by cost, a cell at a time, as the library does it; then
   nodes (one more than cells; the one between two processes belongs to both) and particles (one a cell) move to their new places, in
   messages that arrive in any order.  Whatever the costs and the old split, nothing is lost, doubled or left behind. *)
EXTENDS BalOps, TLC

CONSTANTS N, NP, COST

VARIABLES load, old,      \* cost of the cells; old split, as <<first, last>> of every process
          pc, p, cell, acc, \* the sharing: process being served, next cell, cost up to it
          new,
          net, node, part  \* messages under way; nodes and particles of every process, after the move
vars == <<load, old, pc, p, cell, acc, new, net, node, part>>

Procs == 0..(NP - 1)
Splits == {s \in [1..NP -> (0..(N - 1)) \X (0..(N - 1))] : Partition(s, N)}
Total == Upto(load, N - 1)

Init ==
  /\ load \in [0..(N - 1) -> 0..COST] /\ old \in Splits
  /\ pc = "share" /\ p = 0 /\ cell = 0 /\ acc = 0 /\ new = <<>>
  /\ net = {} /\ node = <<>> /\ part = <<>>

First == IF p = 0 THEN 0 ELSE new[p][2] + 1
(* takes one more cell, and goes on with the next process when this one has its share, or all that can be given to it *)
Take ==
  /\ pc = "share" /\ p < NP
  /\ acc' = acc + load[cell] /\ cell' = cell + 1
  /\ IF p = NP - 1
     THEN IF cell = N - 1 THEN new' = Append(new, <<First, cell>>) /\ p' = p + 1 ELSE UNCHANGED <<new, p>>
     ELSE IF acc' * NP >= (p + 1) * Total \/ cell = N - NP + p
          THEN new' = Append(new, <<First, cell>>) /\ p' = p + 1 ELSE UNCHANGED <<new, p>>
  /\ UNCHANGED <<load, old, pc, net, node, part>>

Both(s, t) == {k \in 0..N : s[1] <= k /\ k <= s[2] + 1 /\ t[1] <= k /\ k <= t[2] + 1}
Own(s, q) == (s[q + 1][1])..(s[q + 1][2])
Send ==
  /\ pc = "share" /\ p = NP
  /\ pc' = "move"
  /\ net' = {m \in [from : Procs, to : Procs, nodes : SUBSET (0..N), parts : SUBSET (0..(N - 1))] :
              /\ m.from # m.to
              /\ m.nodes = Both(old[m.from + 1], new[m.to + 1])
              /\ m.parts = Own(old, m.from) \cap Own(new, m.to)
              /\ m.nodes # {}}
  /\ node' = [q \in Procs |-> Both(old[q + 1], new[q + 1])]
  /\ part' = [q \in Procs |-> [c \in 0..(N - 1) |-> IF c \in Own(old, q) \cap Own(new, q) THEN 1 ELSE 0]]
  /\ UNCHANGED <<load, old, p, cell, acc, new>>

Receive(m) ==
  /\ pc = "move" /\ net' = net \ {m}
  /\ node' = [node EXCEPT ![m.to] = @ \cup m.nodes]
  /\ part' = [part EXCEPT ![m.to] = [c \in DOMAIN @ |-> @[c] + (IF c \in m.parts THEN 1 ELSE 0)]]
  /\ UNCHANGED <<load, old, pc, p, cell, acc, new>>

Next == Take \/ Send \/ \E m \in net : Receive(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Shared == p = NP => Partition(new, N) /\ new = Share(load, N, NP, 0, 0)
(* no process has more than its share and one cell, unless the ones before it were held back for the ones after *)
Fair == p = NP => \A q \in 0..(NP - 2) : Upto(load, new[q + 1][2] - 1) * NP < (q + 1) * Total \/ new[q + 1][1] = new[q + 1][2]
Moved == (pc = "move" /\ net = {}) =>
  \A q \in Procs : /\ node[q] = (new[q + 1][1])..(new[q + 1][2] + 1)
                   /\ \A c \in 0..(N - 1) : part[q][c] = (IF c \in Own(new, q) THEN 1 ELSE 0)
Done == <>(pc = "move" /\ net = {})
=============================================================================
