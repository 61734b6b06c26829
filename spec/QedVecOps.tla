----------------------------- MODULE QedVecOps -----------------------------
(* The containers of the QED library.  State H: objects (slot -> buffer, number of elements, whether the object owns the
   buffer), buffers (contents), and the buffers that belong to the user.  Buffer 0 is the null pointer. *)
EXTENDS Integers, Sequences, FiniteSets

VPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
VDel(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [x \in {} |-> 0]
Empty == [obj |-> Nothing, heap |-> Nothing, ext |-> Nothing, next |-> 1]
Zeros(n) == [i \in 1..n |-> 0]
Cont(H, s) == LET o == H.obj[s] IN IF o.b = 0 THEN <<>> ELSE SubSeq(H.heap[o.b], 1, o.n)
\* an object with a buffer of its own that holds c; what the slot held before is the caller's business
Fill(H, s, c) == [H EXCEPT !.obj = VPut(@, s, [b |-> H.next, n |-> Len(c), own |-> TRUE]), !.heap = VPut(@, H.next, c), !.next = @ + 1]
\* the slot gives up its buffer
Release(H, s) ==
  IF s \notin DOMAIN H.obj THEN H
  ELSE LET o == H.obj[s] IN [H EXCEPT !.obj = VDel(@, s), !.heap = IF o.own /\ o.b # 0 THEN VDel(@, o.b) ELSE @]
Construct(H, s, c) == Fill(Release(H, s), s, c)
NullObj == [b |-> 0, n |-> 0, own |-> TRUE]
MakeEmpty(H, s) == [Release(H, s) EXCEPT !.obj = VPut(@, s, NullObj)]
MakeRaw(H, r, c) == [H EXCEPT !.heap = VPut(@, H.next, c), !.ext = VPut(@, r, H.next), !.next = @ + 1]
View(H, s, r, n) == [Release(H, s) EXCEPT !.obj = VPut(@, s, [b |-> H.ext[r], n |-> n, own |-> FALSE])]
Copy(H, s, o) == IF s = o THEN H ELSE Construct(H, s, Cont(H, o))
Move(H, s, o) ==
  IF s = o THEN H ELSE
  LET h == Release(H, s) IN [h EXCEPT !.obj = VPut(VPut(@, o, NullObj), s, H.obj[o])]
Resize(H, s, n) ==
  LET c == Cont(H, s) IN Construct(H, s, [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0])
CanResize(H, s) == H.obj[s].own
Write(H, s, i, v) == [H EXCEPT !.heap[H.obj[s].b][i] = v]

\* the elements that live
RECURSIVE Total(_, _)
Total(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN Len(f[d]) + Total(f, D \ {d})
Live(H) == Total(H.heap, DOMAIN H.heap)
\* every buffer is the user's or has one owner, and objects refer to buffers that exist
Sound(H) ==
  LET Ext == {H.ext[r] : r \in DOMAIN H.ext}
      Owners(b) == {s \in DOMAIN H.obj : H.obj[s].own /\ H.obj[s].b = b}
  IN /\ \A b \in DOMAIN H.heap : IF b \in Ext THEN Owners(b) = {} ELSE Cardinality(Owners(b)) = 1
     /\ \A s \in DOMAIN H.obj : LET o == H.obj[s] IN IF o.b = 0 THEN o.n = 0 ELSE o.b \in DOMAIN H.heap /\ o.n <= Len(H.heap[o.b])
=============================================================================
