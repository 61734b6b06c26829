------------------------------- MODULE GridOps -------------------------------
(* Nodes of one axis of a grid cut in chunks: who owns a node, and where its copies are stored. *)
EXTENDS Integers, Sequences, FiniteSets
(* ---- one axis: cut = <<0, c1, ..., total>>, chunk c (from 0) holds cut[c+1] .. cut[c+2]-1 ---- *)
Total(cut) == cut[Len(cut)]
Chunks(cut) == 0..(Len(cut) - 2)
ChunkLen(cut, c) == cut[c + 2] - cut[c + 1]
Home(cut, n) == LET c == CHOOSE c \in Chunks(cut) : cut[c + 1] <= n /\ n < cut[c + 2] IN <<c, n - cut[c + 1]>>
NodeOf(cut, c, i) == (cut[c + 1] + i) % Total(cut)
Copies(cut, g, n) == {<<c, i>> \in UNION {{<<c, i>> : i \in -g..(ChunkLen(cut, c) + g)} : c \in Chunks(cut)} : NodeOf(cut, c, i) = n}

=============================================================================
