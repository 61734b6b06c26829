------------------------------ MODULE TraceOut ------------------------------
(* Checks the files a run of the real code leaves behind, in full precision.
     conf    E.dim; E.n[r], E.g[r]: cells of every process and its first cell, E.N: cells of the grid; E.v: dx dy dz, box, dt, eps0,
             1/mu0, electron mass, c; E.sp: <<name, q, m>>; E.out: names of the fields that are output, E.fr: every how many steps,
             between which; E.td: names of the temporal diagnostics, E.tp: their period; E.dumps: <<species, period, bounds>>;
             E.sp0: period of the time statistics
     state   E.it: step; E.f[r]: arrays ex .. rho at the nodes 0..n; E.p[r]: particles <<species, <<x y z ux uy uz w 1/gamma>>>>;
             E.t[r]: times of the phases.  Everything is output after this
     done    E.files: every file, by name: h (what its head says), a (numbers) *)
EXTENDS TraceIO, OutOps, F64

VARIABLES st, files, l
tvars == <<st, files, l>>
E == Trace[l]
Is(v) == l <= Len(Trace) /\ E.ev = v /\ l' = l + 1
Procs == 1..Len(st.n)
NY == IF st.dim = 2 THEN 1 ELSE st.N[2]
NCells == st.N[1] * NY * st.N[3]
(* cell c of the grid: its place, its owner, and where it is in the arrays of the owner *)
Wid(r, a) == IF st.dim = 2 /\ a = 2 THEN 1 ELSE st.n[r][a] + 1
Coord(N, dim) == LET ny == IF dim = 2 THEN 1 ELSE N[2] IN [c \in 1..(N[1] * ny * N[3]) |-> <<(c - 1) % N[1], ((c - 1) \div N[1]) % ny, (c - 1) \div (N[1] * ny)>>]
Home(e) == [c \in 1..Len(Coord(e.N, e.dim)) |->
  LET x == Coord(e.N, e.dim)[c]
      In(r, a) == (e.dim = 2 /\ a = 2) \/ (e.g[r][a] <= x[a] /\ x[a] < e.g[r][a] + e.n[r][a])
      r == CHOOSE q \in 1..Len(e.n) : In(q, 1) /\ In(q, 2) /\ In(q, 3)
      w(a) == IF e.dim = 2 /\ a = 2 THEN 1 ELSE e.n[r][a] + 1
      i(a) == IF e.dim = 2 /\ a = 2 THEN 0 ELSE x[a] - e.g[r][a]
  IN <<r, 1 + i(1) + w(1) * (i(2) + w(2) * i(3))>>]
(* the neighbour of every cell along axis a, s cells away, around the box *)
Beside(N, dim, a, s) == LET co == Coord(N, dim) ny == IF dim = 2 THEN 1 ELSE N[2] IN
  [c \in 1..Len(co) |-> LET y == [co[c] EXCEPT ![a] = (@ + s + N[a]) % N[a]] IN 1 + y[1] + N[1] * (y[2] + ny * y[3])]
Axes(dim) == IF dim = 2 THEN {1, 3} ELSE 1..3

Conf == /\ Is("conf") /\ files' = [k \in {} |-> 0]
        /\ st' = E @@ [home |-> Home(E), back |-> [a \in Axes(E.dim) |-> Beside(E.N, E.dim, a, -1)],
                       front |-> [a \in Axes(E.dim) |-> Beside(E.N, E.dim, a, 1)]]

(* a field over the whole grid, and divergences of three of them, with what rounding does to them *)
Whole(f) == LET h == st.home IN [c \in 1..NCells |-> E.f[h[c][1]][f][h[c][2]]]
AxSeq == IF st.dim = 2 THEN <<1, 3>> ELSE <<1, 2, 3>>
Div(fs, w) == LET f == [a \in Axes(st.dim) |-> Whole(fs[a])]
                  nb == [a \in Axes(st.dim) |-> IF w = "back" THEN st.back[a] ELSE st.front[a]] IN
  [c \in 1..NCells |->
     LET d == [k \in 1..Len(AxSeq) |-> LET a == AxSeq[k] IN FDiv(IF w = "back" THEN FSub(f[a][c], f[a][nb[a][c]]) ELSE FSub(f[a][nb[a][c]], f[a][c]), st.v[a])]
         m == [k \in 1..Len(AxSeq) |-> LET a == AxSeq[k] IN FDiv(FAdd(FAbs(f[a][c]), FAbs(f[a][nb[a][c]])), st.v[a])]
     IN <<FSum(d), FMul("1e-13", FSum(m))>>]
Ith(s, i) == [c \in 1..Len(s) |-> s[c][i]]
E3 == <<"ex", "ey", "ez">>
B3 == <<"bx", "by", "bz">>
J3 == <<"jx", "jy", "jz">>
(* what the file of field f holds: values, and by how much they may differ *)
Field(f) == IF f = "dive" THEN LET d == Div(E3, "back") IN <<Ith(d, 1), Ith(d, 2)>>
            ELSE IF f = "divj" THEN LET d == Div(J3, "back") IN <<Ith(d, 1), Ith(d, 2)>>
            ELSE IF f = "divb" THEN LET d == Div(B3, "front") IN <<Ith(d, 1), Ith(d, 2)>>
            ELSE <<Whole(f), [c \in 1..NCells |-> "0"]>>
Box(e) == <<e.v[4], e.v[5], e.v[6], e.v[7], e.v[8], e.v[9]>>
FieldFiles == IF ~FieldsDue(E.it, st.fr[1], st.fr[2], st.fr[3]) THEN <<>>
  ELSE [k \in 1..Len(st.out) |-> LET v == Field(st.out[k]) IN
          <<st.out[k] \o ToString(E.it) \o ".pxr", [kind |-> "field", a |-> v[1], tol |-> v[2]]>>]

(* the particles of a species that pass a filter, of all processes; in the plane of a 2D run there is no y to filter *)
Within(x, b) == FLt(b[1], x) /\ FLt(x, b[2])
Pass(p, b) == \A v \in 1..6 : (v = 2 /\ st.dim = 2) \/ Within(p[v], <<b[2 * v - 1], b[2 * v]>>)
Of(s) == FlattenSeq([r \in Procs |-> SelectSeq(E.p[r], LAMBDA p : p[1] = s)])
Dump(d) == LET ps == SelectSeq(Of(d[1]), LAMBDA p : Pass(p[2], d[3])) IN [i \in 1..Len(ps) |-> SubSeq(ps[i][2], 1, 7)]
DumpsNow == SelectSeq(st.dumps, LAMBDA d : Due(E.it, d[2]))
PartFiles == LET d == DumpsNow IN
  [k \in 1..Len(d) |-> <<st.sp[d[k][1]][1] \o "_it_" \o ToString(E.it), [kind |-> "part", a |-> Dump(d[k])]>>]

(* temporal diagnostics: one more entry *)
Cell == IF st.dim = 2 THEN FMul(st.v[1], st.v[3]) ELSE FMul(FMul(st.v[1], st.v[2]), st.v[3])
Squares(f) == FDot(f, f)
Energy(f, c) == FMul(FMul(FMul(FMul("0.5", Squares(Whole(f))), Cell), c), "1")
Kin(s) == LET ps == Of(s) IN
  <<FMul(FMul(FSum([i \in 1..Len(ps) |-> LET p == ps[i][2] IN FMul(p[7], FSub(FDiv("1", p[8]), "1"))]), st.sp[s][3]), FMul(st.v[14], st.v[14])),
    FMul(FMul(FSum([i \in 1..Len(ps) |-> LET p == ps[i][2] IN FAbs(FDiv(p[7], p[8]))]), st.sp[s][3]), FMul(FMul(st.v[14], st.v[14]), "1e-12"))>>
Val(x) == <<x, FMul("1e-9", FAbs(x))>>
Entry(t) == CASE t = "kinE" -> [s \in 1..Len(st.sp) |-> Kin(s)]
              [] t = "exE" -> <<Val(Energy("ex", st.v[11]))>> [] t = "eyE" -> <<Val(Energy("ey", st.v[11]))>> [] t = "ezE" -> <<Val(Energy("ez", st.v[11]))>>
              [] t = "bxE" -> <<Val(Energy("bx", st.v[12]))>> [] t = "byE" -> <<Val(Energy("by", st.v[12]))>> [] t = "bzE" -> <<Val(Energy("bz", st.v[12]))>>
              [] t = "rho" -> <<Val(FSqrt(Squares(Whole("rho"))))>>
              [] t = "divE" -> <<Val(FSqrt(Squares(Ith(Div(E3, "back"), 1))))>>
              [] t = "divE-rho" -> LET d == Ith(Div(E3, "back"), 1) rho == Whole("rho") IN
                                   <<Val(FSqrt(Squares([c \in 1..NCells |-> FSub(FMul(d[c], st.v[11]), rho[c])])))>>
Fdt(p) == FMul(F(p), st.v[10])
More(name, kind, h, e) == LET old == IF name \in DOMAIN files THEN files[name].a ELSE <<>> IN
  <<name, [kind |-> kind, h |-> h, a |-> old \o e]>>
TempFiles == IF ~Due(E.it, st.tp) THEN <<>>
  ELSE [k \in 1..Len(st.td) |-> LET t == st.td[k] e == Entry(t) IN More(t, "temp", <<F(Len(e)), Fdt(st.tp)>>, e)]
(* averages of the times over the processes; the ninth is the output itself and goes on *)
Mean(i) == FDiv(FSum([r \in Procs |-> E.t[r][i]]), F(Len(st.n)))
TimeFile == IF ~Due(E.it, st.sp0) THEN <<>>
  ELSE <<More("time_stat", "temp", <<"13", Fdt(st.sp0)>>, [i \in 1..13 |-> <<Mean(i), IF i = 9 THEN "1e3" ELSE "1e-9">>])>>

(* the heads of the temporal files are there from the start *)
Begin == [t \in ToSet(st.td) |-> [kind |-> "temp", h |-> <<IF t = "kinE" THEN F(Len(st.sp)) ELSE "1", Fdt(st.tp)>>, a |-> <<>>]]
         @@ (IF st.sp0 > 0 THEN [t \in {"time_stat"} |-> [kind |-> "temp", h |-> <<"13", Fdt(st.sp0)>>, a |-> <<>>]] ELSE [k \in {} |-> 0])
Put(new) == [n \in {w[1] : w \in ToSet(new)} |-> LET k == CHOOSE j \in 1..Len(new) : new[j][1] = n IN new[k][2]]
Init1 == Is("init") /\ files' = Begin /\ UNCHANGED st
Output == /\ Is("state") /\ UNCHANGED st
          /\ files' = Put(FieldFiles \o PartFiles \o TempFiles \o TimeFile) @@ files

(* the files hold that, and there are no others *)
FieldOK(w, g) == /\ Len(g.a) = Len(w.a) /\ \A c \in 1..Len(w.a) : FClose(g.a[c], w.a[c], w.tol[c])
                 /\ Len(g.h) = 9 /\ (\A i \in 1..6 : FEq(g.h[i], Box(st)[i])) /\ (\A i \in 1..3 : FEq(g.h[6 + i], F(st.N[i])))
(* the particles, each once, in an order common to all the quantities *)
PartOK(w, g) == LET n == Len(w.a)
                    of == [i \in 1..n |-> CHOOSE k \in 0..n : IF k = 0 THEN \A m \in 1..n : ~FEq(g.a[6 * n + m], w.a[i][7]) ELSE FEq(g.a[6 * n + k], w.a[i][7])]
                IN /\ Len(g.a) = 7 * n
                   /\ \A i \in 1..n : of[i] # 0 /\ \A v \in 1..7 : (st.dim = 2 /\ v = 2) \/ FEq(g.a[(v - 1) * n + of[i]], w.a[i][v])
                   /\ Cardinality(ToSet(of)) = n
TempOK(w, g) == /\ Len(g.h) = 2 /\ FEq(g.h[1], w.h[1]) /\ FNear(g.h[2], w.h[2], "1e-14")
                /\ Len(g.a) = Len(w.a) /\ \A i \in 1..Len(w.a) : FClose(g.a[i], w.a[i][1], w.a[i][2])
FileOK(n) == LET w == files[n] g == E.files[n] IN
  (CASE w.kind = "field" -> FieldOK(w, g) [] w.kind = "part" -> PartOK(w, g) [] w.kind = "temp" -> TempOK(w, g)) \/ (PrintT(<<"wrong file", n>>) /\ FALSE)
Done == /\ Is("done") /\ UNCHANGED <<st, files>>
        /\ TRUE = (IF DOMAIN E.files = DOMAIN files THEN \A n \in DOMAIN files : FileOK(n)
                   ELSE PrintT(<<"files missing", DOMAIN files \ DOMAIN E.files, "not expected", DOMAIN E.files \ DOMAIN files>>) /\ FALSE)

TraceInit == st = <<>> /\ files = <<>> /\ l = 1
TraceNext == Conf \/ Init1 \/ Output \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
