---------------------------- MODULE TraceQedVec ----------------------------
(* Checks traces of picsar_vector and picsar_array (harness/qedvec.cpp) against QedVecOps: contents of all the objects and the
   number of elements that live, after every operation. *)
EXTENDS QedVecOps, TraceIO
VARIABLES l, H, A
vars == <<l, H, A>>
Init == l = 1 /\ H = Empty /\ A = Nothing

Agree(e, h, a) ==
  /\ {<<x[1], x[2]>> : x \in {e.all[i] : i \in 1..Len(e.all)}} = {<<s, Cont(h, s)>> : s \in DOMAIN h.obj} \cup {<<s, a[s]>> : s \in DOMAIN a}
  /\ {<<x[1], x[2]>> : x \in {e.raw[i] : i \in 1..Len(e.raw)}} = {<<r, h.heap[h.ext[r]]>> : r \in DOMAIN h.ext}
  /\ e.live = -1000000 \/ e.live = Live(h) + 3 * Cardinality(DOMAIN a)
  /\ e.self

VecNext(e) ==      \* [h, thrown]
  LET x == e.x
      s == e.s
      Ok(h) == [h |-> h, thrown |-> FALSE]
  IN CASE e.ev = "size" -> Ok(Construct(H, s, Zeros(x[1])))
       [] e.ev = "empty" -> Ok(MakeEmpty(H, s))
       [] e.ev \in {"stl", "list"} -> Ok(Construct(H, s, x))
       [] e.ev = "mkraw" -> Ok(MakeRaw(H, s, x))
       [] e.ev = "raw" -> Ok(View(H, s, x[1], x[2]))
       [] e.ev \in {"copy", "asg"} -> Ok(Copy(H, s, x[1]))
       [] e.ev \in {"move", "masg"} -> Ok(Move(H, s, x[1]))
       [] e.ev = "tasg" -> Ok(Construct(H, s, x))
       [] e.ev = "resize" -> IF CanResize(H, s) THEN Ok(Resize(H, s, x[1])) ELSE [h |-> H, thrown |-> TRUE]
       [] e.ev \in {"set", "iset"} -> Ok(Write(H, s, x[1] + 1, x[2]))
       [] e.ev = "free" -> Ok(Release(H, s))
       [] e.ev = "end" -> Ok(Empty)
       [] OTHER -> Ok(H)
ArrNext(e) ==
  CASE e.ev = "anew" -> VPut(A, e.s, e.x)
    [] e.ev = "adef" -> VPut(A, e.s, Zeros(3))
    [] e.ev \in {"acopy", "aasg"} -> VPut(A, e.s, A[e.x[1]])
    [] e.ev = "aset" -> [A EXCEPT ![e.s][e.x[1] + 1] = e.x[2]]
    [] e.ev = "afree" -> VDel(A, e.s)
    [] e.ev = "end" -> Nothing
    [] OTHER -> A

Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               n == VecNext(e)
               a == ArrNext(e)
           IN e.thrown = n.thrown /\ Agree(e, n.h, a) /\ H' = n.h /\ A' = a
        /\ l' = l + 1
=============================================================================
