---- MODULE MCMaxwell ----
EXTENDS Maxwell
N333 == <<3, 3, 3>>
N414 == <<4, 1, 4>>
N523 == <<5, 2, 3>>
S2 == << <<1>>, <<1>>, <<1>> >>
S4 == << <<27, -1>>, <<27, -1>>, <<27, -1>> >>
S4n == << <<8, -1>>, <<8, -1>>, <<8, -1>> >>
UniformKept == [][(\A c \in Comp : e[c] = e[<<c[1], <<0, 0, 0>>>>] /\ b[c] = b[<<c[1], <<0, 0, 0>>>>] /\ j[c] = 0) => (e' = e /\ b' = b)]_vars
====
