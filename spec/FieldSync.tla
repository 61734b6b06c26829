------------------------------ MODULE FieldSync ------------------------------
(* Exchange of the guard cells of a field, and summation of the guard cells of a source term, on a periodic grid cut among
   ranks.  A rank stores its nodes 0..len and g guard nodes on each side; node len is node 0 of the next rank.
   The ranks run at their own pace and talk through FIFO channels; the axes are treated one after the other.

   Synced : after an exchange, every stored copy of a node holds the value of its owner before.
   Summed : after a summation, every stored copy holds the sum of what all copies held before.

   The operators on one axis (GridOps: Home, Copies, ...) are those the trace specification uses on the arrays of the real code. *)
EXTENDS GridOps

(* ---- two axes ---- *)
CONSTANTS Cut,   \* <<cuts of axis 1, cuts of axis 2>>
          G,     \* guard cells per axis
          Kind,  \* "sync" or "sum"
          Async  \* TRUE: both messages of an axis are sent before any is awaited (summation without blocking)

Ranks == Chunks(Cut[1]) \X Chunks(Cut[2])
Width(r, a) == ChunkLen(Cut[a], r[a])
Cells(r) == (-G[1]..(Width(r, 1) + G[1])) \X (-G[2]..(Width(r, 2) + G[2]))
Next1(r, a, d) == [r EXCEPT ![a] = (@ + d) % (Len(Cut[a]) - 1)]
Node(r, x) == <<NodeOf(Cut[1], r[1], x[1]), NodeOf(Cut[2], r[2], x[2])>>
Owned(r, x) == \A a \in 1..2 : 0 <= x[a] /\ x[a] < Width(r, a)
At(x, a, i) == [x EXCEPT ![a] = i]
Lines(r, a) == {x \in Cells(r) : x[a] = 0}

(* The program of every rank: steps of the form <<what, axis, direction of the send>>. *)
SyncProg == << <<"copy", 1, -1>>, <<"copy", 1, 1>>, <<"copy", 2, -1>>, <<"copy", 2, 1>> >>
SumProg == IF Async THEN << <<"add2", 1, 0>>, <<"add2", 2, 0>> >>
           ELSE << <<"add", 1, 1>>, <<"add", 1, -1>>, <<"add", 2, 1>>, <<"add", 2, -1>> >>
Prog == IF Kind = "sync" THEN SyncProg ELSE SumProg \o SyncProg

VARIABLES f, first, pc, sent, chan
vars == <<f, first, pc, sent, chan>>

(* plane t of the slab that step s sends, and plane where it lands *)
Source(r, s, d, t) ==
  IF s[1] = "copy" THEN (IF d = -1 THEN t ELSE Width(r, s[2]) - G[s[2]] + t)
  ELSE (IF d = 1 THEN Width(r, s[2]) + t ELSE -G[s[2]] + t)
Target(r, s, d, t) ==
  IF s[1] = "copy" THEN (IF d = -1 THEN Width(r, s[2]) + t ELSE -G[s[2]] + t)
  ELSE (IF d = 1 THEN t ELSE Width(r, s[2]) - G[s[2]] + t)

Slab(r, s, d) == [x \in {At(y, s[2], t) : y \in Lines(r, s[2]), t \in 0..G[s[2]]} |-> f[r][At(x, s[2], Source(r, s, d, x[s[2]]))]]
Put(h, r, s, d, m) ==
  LET a == s[2]
      hit == [t \in 0..G[a] |-> Target(r, s, d, t)]
      back(x) == IF \E t \in 0..G[a] : hit[t] = x[a] THEN CHOOSE t \in 0..G[a] : hit[t] = x[a] ELSE -1
  IN [x \in DOMAIN h |-> IF back(x) < 0 THEN h[x] ELSE IF s[1] = "copy" THEN m[At(x, a, back(x))] ELSE h[x] + m[At(x, a, back(x))]]

Dirs(s) == IF s[3] = 0 THEN <<1, -1>> ELSE <<s[3]>>

Id(r, x) == 1 + Node(r, x)[1] + 100 * Node(r, x)[2]
Init ==
  /\ IF Kind = "sync" THEN f = [r \in Ranks |-> [x \in Cells(r) |-> IF Owned(r, x) THEN Id(r, x) ELSE 0]]
     ELSE \E r0 \in Ranks : \E x0 \in Cells(r0) : f = [r \in Ranks |-> [x \in Cells(r) |-> IF r = r0 /\ x = x0 THEN 1 ELSE 0]]
  /\ first = f
  /\ pc = [r \in Ranks |-> 1] /\ sent = [r \in Ranks |-> FALSE]
  /\ chan = [p \in Ranks \X Ranks |-> <<>>]

Step(r) == Prog[pc[r]]

RECURSIVE SendAll(_, _, _, _)
SendAll(ch, r, s, ds) ==
  IF ds = <<>> THEN ch
  ELSE LET q == <<r, Next1(r, s[2], Head(ds))>> IN SendAll([ch EXCEPT ![q] = Append(@, Slab(r, s, Head(ds)))], r, s, Tail(ds))

Send(r) ==
  /\ pc[r] <= Len(Prog) /\ ~sent[r]
  /\ chan' = SendAll(chan, r, Step(r), Dirs(Step(r)))
  /\ sent' = [sent EXCEPT ![r] = TRUE]
  /\ UNCHANGED <<f, first, pc>>

RECURSIVE Ready(_, _, _, _)
Ready(ch, r, s, ds) ==
  IF ds = <<>> THEN TRUE
  ELSE LET q == <<Next1(r, s[2], -Head(ds)), r>> IN ch[q] # <<>> /\ Ready([ch EXCEPT ![q] = Tail(@)], r, s, Tail(ds))
RECURSIVE TakeAll(_, _, _, _, _)
TakeAll(h, ch, r, s, ds) ==
  IF ds = <<>> THEN <<h, ch>>
  ELSE LET q == <<Next1(r, s[2], -Head(ds)), r>> IN TakeAll(Put(h, r, s, Head(ds), Head(ch[q])), [ch EXCEPT ![q] = Tail(@)], r, s, Tail(ds))

Recv(r) ==
  /\ pc[r] <= Len(Prog) /\ sent[r]
  /\ Ready(chan, r, Step(r), Dirs(Step(r)))
  /\ LET t == TakeAll(f[r], chan, r, Step(r), Dirs(Step(r)))
     IN f' = [f EXCEPT ![r] = t[1]] /\ chan' = t[2]
  /\ sent' = [sent EXCEPT ![r] = FALSE]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED first

Next == \E r \in Ranks : Send(r) \/ Recv(r)
Spec == Init /\ [][Next]_vars

Done == \A r \in Ranks : pc[r] > Len(Prog)
HomeOf(n) == LET h1 == Home(Cut[1], n[1]) h2 == Home(Cut[2], n[2]) IN << <<h1[1], h2[1]>>, <<h1[2], h2[2]>> >>
Synced == (Done /\ Kind = "sync") => \A r \in Ranks : \A x \in Cells(r) : LET h == HomeOf(Node(r, x)) IN f[r][x] = first[h[1]][h[2]]
Total1(n) == Cardinality({<<r, x>> \in UNION {{r} \X Cells(r) : r \in Ranks} : Node(r, x) = n /\ first[r][x] = 1})
Summed == (Done /\ Kind = "sum") => \A r \in Ranks : \A x \in Cells(r) : f[r][x] = Total1(Node(r, x))
Emptied == Done => \A p \in DOMAIN chan : chan[p] = <<>>
NoStop == Done \/ ENABLED Next
=============================================================================
