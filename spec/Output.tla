------------------------------- MODULE Output -------------------------------
(* Design of the output of a run: at every step, each process in its own time
     - the first writes the head of the field file, all meet, then each writes its block of the grid (nodes cut[r]..cut[r+1]-1);
     - each writes its particles, quantity by quantity, at its own places in the file of the species;
     - they meet for the sums, and the owner of each active temporal diagnostic appends a value to its file, through the unit
       this file was opened on at the start (process k has the k-th one; process 1 has them all when there are more than processes).
   Whatever the order, every place of a file is written once, in the end every file is full, and the temporal files have one value
   for every step, in order. *)
EXTENDS OutOps, FiniteSets, SequencesExt
CONSTANTS P, NMax, Steps, Quantities, Freq, Period, Kinds, UHead, UTemp

VARIABLES it, at, cut, np, on, field, part, temp, unit
vars == <<it, at, cut, np, on, field, part, temp, unit>>
Procs == 1..P
Act == Written(on)
Few == P < Len(Act)
Owner(k) == IF Few THEN 1 ELSE k
Unit(k) == IF Few THEN UTemp + k ELSE UTemp
Units == {UHead} \union (UTemp..(UTemp + Kinds))
Mine(r) == {k \in 1..Len(Act) : Owner(k) = r}
(* what the units of a process are connected to: the kind of a diagnostic, 0 for nothing *)
Opened(r, a) == [u \in Units |-> LET ks == {k \in 1..Len(a) : (IF P < Len(a) THEN 1 ELSE k) = r /\ (IF P < Len(a) THEN UTemp + k ELSE UTemp) = u}
                                 IN IF ks = {} THEN 0 ELSE a[CHOOSE k \in ks : TRUE]]

Init == /\ it = 1 /\ at = [r \in Procs |-> "head"]
        /\ cut \in {SetToSortSeq(s \union {0, NMax}, <) : s \in {t \in SUBSET (1..(NMax - 1)) : Cardinality(t) = P - 1}}
        /\ np \in [Procs -> 0..2] /\ on \in [1..Kinds -> BOOLEAN]
        /\ field = {} /\ part = {} /\ temp = [k \in 1..Kinds |-> <<>>]
        /\ unit = [r \in Procs |-> Opened(r, Written(on))]

Everyone(s) == \A r \in Procs : at[r] \in s
Go(r, s) == at' = [at EXCEPT ![r] = s]
Now == FieldsDue(it, Freq, 1, Steps)
(* opening a unit closes the file it was connected to *)
Header(r) == /\ at[r] = "head" /\ Go(r, "block")
             /\ unit' = IF r = 1 /\ Now THEN [unit EXCEPT ![1] = [@ EXCEPT ![UHead] = 0]] ELSE unit
             /\ UNCHANGED <<it, cut, np, on, field, part, temp>>
Block(r) == /\ at[r] = "block" /\ Everyone({"block", "part"}) /\ Go(r, "part")
            /\ field' = field \union (IF Now THEN {<<it, i, r>> : i \in cut[r]..(cut[r + 1] - 1)} ELSE {})
            /\ UNCHANGED <<it, cut, np, on, part, temp, unit>>
Parts(r) == /\ at[r] = "part" /\ Everyone({"part", "sum"}) /\ Go(r, "sum")
            /\ part' = part \union (IF Due(it, Period) THEN {<<it, Place([q \in Procs |-> np[q]], r, v) + i, <<r, v, i>>>> : v \in 0..(Quantities - 1), i \in 0..(np[r] - 1)} ELSE {})
            /\ UNCHANGED <<it, cut, np, on, field, temp, unit>>
(* a value goes to the file the unit is connected to, if any *)
Append1(r) == /\ at[r] = "sum" /\ Everyone({"sum", "end"}) /\ Go(r, "end")
              /\ temp' = [k \in 1..Kinds |-> LET m == {j \in Mine(r) : unit[r][Unit(j)] = k}
                                             IN IF Due(it, Period) /\ m # {} THEN Append(temp[k], <<it, Act[CHOOSE j \in m : TRUE]>>) ELSE temp[k]]
              /\ UNCHANGED <<it, cut, np, on, field, part, unit>>
Next1 == /\ Everyone({"end"}) /\ it < Steps /\ it' = it + 1 /\ at' = [r \in Procs |-> "head"]
         /\ \E r \in Procs, n \in 0..2 : np' = [np EXCEPT ![r] = n]
         /\ field' = {} /\ part' = {} /\ UNCHANGED <<cut, on, temp, unit>>
Next == Next1 \/ \E r \in Procs : Header(r) \/ Block(r) \/ Parts(r) \/ Append1(r)
Spec == Init /\ [][Next]_vars

Once(w) == \A a, b \in w : a[1] = b[1] /\ a[2] = b[2] => a = b
WrittenOnce == Once(field) /\ Once(part)
Full == Everyone({"end"}) =>
  /\ (Now => {w[2] : w \in field} = 0..(NMax - 1)) /\ (~Now => field = {})
  /\ (Due(it, Period) => {w[2] : w \in part} = 0..(Quantities * Sum([q \in Procs |-> np[q]], P) - 1)) /\ (~Due(it, Period) => part = {})
(* the arrays of all the quantities list the particles in one order *)
SameOrder == \A a, b \in part : a[3][2] = b[3][2] => (a[2] < b[2]) = (<<a[3][1], a[3][3]>> # <<b[3][1], b[3][3]>> /\ (a[3][1] < b[3][1] \/ (a[3][1] = b[3][1] /\ a[3][3] < b[3][3])))
TempFiles == Everyone({"end"}) => \A k \in 1..Kinds :
  temp[k] = IF on[k] THEN [i \in 1..(it \div Period) |-> <<i * Period, k>>] ELSE <<>>
=============================================================================
