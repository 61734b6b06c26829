-------------------------------- MODULE Deck --------------------------------
(* The meaning of an input file as a state machine: any file of at most MaxLines lines over a few sections and keywords, read
   line by line, then a command line.  `hist` remembers what was given; the properties state what the parameters must be
   without reference to how they were read. *)
EXTENDS DeckOps, Integers
CONSTANTS MaxLines, MaxArgs

VARIABLES par, sp, dumps, sec, hist, n, args
vars == <<par, sp, dumps, sec, hist, n, args>>

Vals == {1, 2}
Conv(how, v) == IF how = "v" THEN v ELSE 10 * v
Secs == {"main", "temporal", "sorting", "species", "particle_dump"}
Ks == [main |-> {"nx", "nguardsx", "ngguards_x", "dx"}, temporal |-> {"rho", "format"}, sorting |-> {"dx"}, species |-> {"mass", "nppcell"},
       particle_dump |-> {"dump_x_min"}]
Base == [p \in {"nx_global_grid", "nxguards", "nxjguards", "nxg_group", "dx", "temdiag_act_list9", "temdiag_format", "sorting_dx", "nx_pml"} |-> 0]

Init == par = Base /\ sp = <<>> /\ dumps = <<>> /\ sec = "" /\ hist = <<>> /\ n = 0 /\ args = 0

Open(s) == /\ n < MaxLines /\ args = 0 /\ sec = "" /\ n' = n + 1 /\ sec' = s
           /\ sp' = IF s = "species" THEN Append(sp, [mass |-> 0, nppcell |-> 0]) ELSE sp
           /\ dumps' = IF s = "particle_dump" THEN Append(dumps, [x_min |-> 0]) ELSE dumps
           /\ UNCHANGED <<par, hist, args>>
Close == n < MaxLines /\ args = 0 /\ sec # "" /\ n' = n + 1 /\ sec' = "" /\ UNCHANGED <<par, sp, dumps, hist, args>>
Key(k, v) == /\ n < MaxLines /\ args = 0 /\ sec # "" /\ n' = n + 1
             /\ LET t == Keys(sec) IN
                /\ par' = IF sec \in Plain THEN Set(par, t, k, v, Conv) ELSE par
                /\ sp' = IF sec = "species" THEN [sp EXCEPT ![Len(sp)] = Set(@, t, k, v, Conv)] ELSE sp
                /\ dumps' = IF sec = "particle_dump" THEN [dumps EXCEPT ![Len(dumps)] = Set(@, t, k, v, Conv)] ELSE dumps
             /\ hist' = Append(hist, <<sec, k, v, Len(sp), Len(dumps)>>)
             /\ UNCHANGED <<sec, args>>
Arg(k, v) == /\ n > 0 /\ sec = "" /\ args < MaxArgs /\ args' = args + 1
             /\ par' = Set(par, CommandLine, k, v, Conv)
             /\ hist' = Append(hist, <<"cl", k, v, 0, 0>>)
             /\ UNCHANGED <<sp, dumps, sec, n>>
Next == (\E s \in Secs : Open(s)) \/ Close \/ (\E k \in UNION {Ks[s] : s \in Secs}, v \in Vals : sec # "" /\ k \in Ks[sec] \union {"dx"} /\ Key(k, v))
        \/ (\E k \in {"nx", "nxpml", "nguardsx"}, v \in Vals : Arg(k, v))
Spec == Init /\ [][Next]_vars

Table(s) == IF s = "cl" THEN CommandLine ELSE Keys(s)
Hits(p, h) == (h[1] \in Plain \/ h[1] = "cl") /\ \E r \in Table(h[1]) : r[1] = h[2] /\ r[2] = p
(* a parameter holds what the last line or argument that names it says, or its default if none does: however lines are ordered,
   whatever other sections hold, and however often a section appears *)
LastWins == \A p \in DOMAIN par : LET hs == {i \in 1..Len(hist) : Hits(p, hist[i])} IN
  IF hs = {} THEN par[p] = Base[p] ELSE LET m == CHOOSE i \in hs : \A j \in hs : j <= i IN par[p] = hist[m][3]
(* each species holds what its own section says *)
OwnSpecies == \A s \in 1..Len(sp) : \A k \in {"mass", "nppcell"} :
  LET hs == {i \in 1..Len(hist) : hist[i][1] = "species" /\ hist[i][2] = k /\ hist[i][4] = s} IN
  IF hs = {} THEN sp[s][k] = 0 ELSE LET m == CHOOSE i \in hs : \A j \in hs : j <= i IN sp[s][k] = (IF k = "mass" THEN 10 ELSE 1) * hist[m][3]
(* no section spills into another: a species or a dump is touched by nothing but its own lines *)
OwnDumps == \A s \in 1..Len(dumps) : LET hs == {i \in 1..Len(hist) : hist[i][1] = "particle_dump" /\ hist[i][2] = "dump_x_min" /\ hist[i][5] = s} IN
  IF hs = {} THEN dumps[s].x_min = 0 ELSE LET m == CHOOSE i \in hs : \A j \in hs : j <= i IN dumps[s].x_min = hist[m][3]
NoNewNames == DOMAIN par = DOMAIN Base
=============================================================================
