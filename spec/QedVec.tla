------------------------------ MODULE QedVec ------------------------------
(* All the ways to use a few containers: nothing leaks, nothing is freed twice, and objects are independent unless they
   are views of the same user storage. *)
EXTENDS QedVecOps
CONSTANTS Slots, MaxLen, Steps
VARIABLES H, k
vars == <<H, k>>
Init == H = MakeRaw(Empty, 1, [i \in 1..MaxLen |-> 1]) /\ k = 0
Act ==
  \E s \in Slots :
    \/ \E n \in 0..MaxLen : H' = Construct(H, s, Zeros(n))
    \/ H' = MakeEmpty(H, s)
    \/ \E n \in 0..MaxLen : H' = View(H, s, 1, n)
    \/ s \in DOMAIN H.obj /\
       \/ \E o \in DOMAIN H.obj : H' = Copy(H, s, o) \/ H' = Move(H, s, o)
       \/ \E n \in 0..MaxLen : CanResize(H, s) /\ H' = Resize(H, s, n)
       \/ \E i \in 1..H.obj[s].n, v \in {2, 3} : H' = Write(H, s, i, v)
       \/ H' = Release(H, s)
Next == k < Steps /\ k' = k + 1 /\ Act
Spec == Init /\ [][Next]_vars
SoundInv == Sound(H)
\* names of buffers do not matter
Shape == <<[s \in DOMAIN H.obj |-> <<H.obj[s].own, H.obj[s].b = 0, Cont(H, s)>>], Live(H), k, {H.heap[H.ext[r]] : r \in DOMAIN H.ext}>>
\* a write shows in the objects that share the buffer and in no other
Independent ==
  \A s \in DOMAIN H.obj : \A i \in 1..H.obj[s].n :
    LET G == Write(H, s, i, 9) IN
    \A t \in DOMAIN H.obj : IF H.obj[t].b = H.obj[s].b THEN (i <= H.obj[t].n => Cont(G, t)[i] = 9) ELSE Cont(G, t) = Cont(H, t)
\* a copy equals its original and shares nothing with it
Deep == \A s, o \in DOMAIN H.obj : s # o => LET G == Copy(H, s, o) IN Cont(G, s) = Cont(H, o) /\ G.obj[s].own /\ G.obj[s].b # G.obj[o].b /\ Cont(G, o) = Cont(H, o)
\* a move takes the contents and leaves an empty object, without touching the elements
Steal == \A s, o \in DOMAIN H.obj : s # o => LET G == Move(H, s, o) IN Cont(G, s) = Cont(H, o) /\ Cont(G, o) = <<>> /\ G.obj[s] = H.obj[o]
=============================================================================
