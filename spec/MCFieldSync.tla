---- MODULE MCFieldSync ----
(* Model values of FieldSync. *)
EXTENDS FieldSync
C22 == << <<0, 2, 5>>, <<0, 2, 4>> >>
G11 == <<1, 1>>
C31 == << <<0, 3, 7, 10>>, <<0, 3>> >>
G21 == <<2, 2>>
C21 == << <<0, 3, 5>>, <<0, 2>> >>
C13 == << <<0, 3>>, <<0, 2, 4>> >>
====
