----------------------------- MODULE TraceDiag -----------------------------
(* Checks what the diagnostics of the real code report, in full precision.
     state   E.n[r]: cells of every process, E.g[r]: its first cell; E.N: cells of the grid; E.dim; E.v: dx dy dz, box, dt, eps0,
             1/mu0, electron mass, c; E.f[r]: arrays ex .. rho at the nodes 0..n of the process (i fastest); E.sp: <<q, m>>;
             E.p[r]: particles <<species, id, <<x y z ux uy uz ex .. bz w 1/gamma>>>> of the process
     count   E.c[r][s]: <<local number, total number, local and total kinetic energy>>
     quant   E.s; E.q[r]: the arrays of x y z ux .. bz, weight, number
     energy  E.e[r]: local and total, of ex ey ez bx by bz;  em  E.e[r]: electric, magnetic, sum, and the same in total
     div     E.f[r]: ex .. bz dive divb at the nodes -1..n+1
     norm    E.d[r]: dive at the nodes 0..n, E.e[r]: local square of ||divE eps0 - rho||, its root in total, local squares of rho and divE
     plane   E.p, E.po, E.v: plane now and before, normal; E.m; E.x: <<caught?, 8 numbers, distance now and before>>; E.c: caught
     lor     E.how, E.par, E.b, E.a *)
EXTENDS TraceIO, DiagOps, F64

VARIABLES st, l
tvars == <<st, l>>
E == Trace[l]
Is(v) == l <= Len(Trace) /\ E.ev = v /\ l' = l + 1
Procs == 1..Len(st.n)

(* node (i, j, k) of a process in an array that begins at lo and is stored up to n + up *)
Wid(n, lo, up, a) == IF st.dim = 2 /\ a = 2 THEN 1 ELSE n[a] + up - lo + 1
At(n, lo, up, i, j, k) == 1 + (i - lo) + Wid(n, lo, up, 1) * ((IF st.dim = 2 THEN 0 ELSE j - lo) + Wid(n, lo, up, 2) * (k - lo))
Cells(n) == n[1] * (IF st.dim = 2 THEN 1 ELSE n[2]) * n[3]
(* the nodes 0..n-1 of a process, as places in its arrays *)
Own(n, dim) == LET n1 == n[1] n2 == IF dim = 2 THEN 1 ELSE n[2] w2 == IF dim = 2 THEN 1 ELSE n[2] + 1 IN
  [c \in 1..(n1 * n2 * n[3]) |-> 1 + ((c - 1) % n1) + (n1 + 1) * ((((c - 1) \div n1) % n2) + w2 * ((c - 1) \div (n1 * n2)))]
Pick(a, ix) == [i \in 1..Len(ix) |-> a[ix[i]]]
Sq(a) == FDot(a, a)
(* the sum of squares of field f over the nodes of the whole grid, every node once *)
Squares(f) == FSum([r \in Procs |-> Sq(Pick(st.f[r][f], st.own[r]))])
Cell == IF st.dim = 2 THEN FMul(st.v[1], st.v[3]) ELSE FMul(FMul(st.v[1], st.v[2]), st.v[3])
Tol == "1e-11"

State == Is("state") /\ st' = E @@ [own |-> [r \in 1..Len(E.n) |-> Own(E.n[r], E.dim)]]

(* particles *)
PartsOf(r, s) == SelectSeq(st.p[r], LAMBDA p : p[1] = s)
(* gamma - 1 as the difference it is computed from *)
KinTerms(r, s) == [i \in 1..Len(PartsOf(r, s)) |-> LET p == PartsOf(r, s)[i][3] IN FMul(p[13], FSub(FDiv("1", p[14]), "1"))]
KinMag(r, s) == FSum([i \in 1..Len(PartsOf(r, s)) |-> LET p == PartsOf(r, s)[i][3] IN FAbs(FDiv(p[13], p[14]))])
Count == /\ Is("count") /\ UNCHANGED st
         /\ TRUE = \A s \in 1..Len(st.sp) :
              LET tot == SumSeq([r \in Procs |-> Len(PartsOf(r, s))])
                  kin == [r \in Procs |-> FSum(KinTerms(r, s))]
                  mag == FSum([r \in Procs |-> KinMag(r, s)])
              IN \A r \in Procs : /\ E.c[r][s][1] = Len(PartsOf(r, s)) /\ E.c[r][s][2] = tot
                                  /\ FClose(E.c[r][s][3], kin[r], FMul("1e-12", mag)) /\ FClose(E.c[r][s][4], FSum(kin), FMul("1e-12", mag))
(* the arrays describe the particles, each once, in one order common to all of them *)
Quant == /\ Is("quant") /\ UNCHANGED st
         /\ TRUE = \A r \in Procs :
              LET ps == PartsOf(r, E.s) q == E.q[r] n == Len(ps)
                  of == [i \in 1..Len(ps) |-> CHOOSE k \in 0..n : IF k = 0 THEN ~\E m \in 1..n : FEq(q[14][m], F(ps[i][2])) ELSE FEq(q[14][k], F(ps[i][2]))]
              IN /\ \A v \in 1..14 : Len(q[v]) = (IF st.dim = 2 /\ v = 2 THEN 0 ELSE n)
                 /\ \A i \in 1..n : of[i] # 0 /\ \A v \in 1..13 : (st.dim = 2 /\ v = 2) \/ FEq(q[v][of[i]], ps[i][3][v])
                 /\ Cardinality(ToSet(of)) = n

(* fields *)
Names == <<"ex", "ey", "ez", "bx", "by", "bz">>
Energy == /\ Is("energy") /\ UNCHANGED st
          /\ TRUE = \A f \in 1..6 : LET w == FMul(FMul("0.5", Squares(Names[f])), Cell) IN
               /\ FNear(FSum([r \in Procs |-> E.e[r][2 * f - 1]]), w, Tol)
               /\ \A r \in Procs : FNear(E.e[r][2 * f], w, Tol)
ElecB == FMul(FMul(FMul("0.5", st.v[11]), FSum(<<Squares("ex"), Squares("ey"), Squares("ez")>>)), Cell)
MagnB == FMul(FMul(FMul("0.5", st.v[12]), FSum(<<Squares("bx"), Squares("by"), Squares("bz")>>)), Cell)
Em == /\ Is("em") /\ UNCHANGED st
      /\ TRUE = (LET el == ElecB mg == MagnB IN
           /\ \A r \in Procs : /\ FNear(E.e[r][4], el, "1e-9") /\ FNear(E.e[r][5], mg, "1e-9") /\ FNear(E.e[r][6], FAdd(el, mg), "1e-9")
                              /\ FNear(E.e[r][3], FAdd(E.e[r][1], E.e[r][2]), Tol)
           /\ FNear(FSum([r \in Procs |-> E.e[r][1]]), el, "1e-9") /\ FNear(FSum([r \in Procs |-> E.e[r][2]]), mg, "1e-9"))
(* divergences: backward differences for E, forward ones for B, at every node that is output (0..n-1), and at n *)
Div1(a, n, s, i, j, k) ==
  LET y == st.dim = 3
      A(f, x, yy, z) == a[f][At(n, -1, 1, x, yy, z)]
      X == <<A(1, i, j, k), A(1, i + s, j, k)>>
      Y == IF y THEN <<A(2, i, j, k), A(2, i, j + s, k)>> ELSE <<"0", "0">>
      Z == <<A(3, i, j, k), A(3, i, j, k + s)>>
      D(p, d) == FDiv(IF s < 0 THEN FSub(p[1], p[2]) ELSE FSub(p[2], p[1]), d)
      M(p, d) == FDiv(FAdd(FAbs(p[1]), FAbs(p[2])), d)
  IN <<FSum(<<D(X, st.v[1]), IF y THEN D(Y, st.v[2]) ELSE "0", D(Z, st.v[3])>>), FSum(<<M(X, st.v[1]), IF y THEN M(Y, st.v[2]) ELSE "0", M(Z, st.v[3])>>)>>
Div == /\ Is("div") /\ UNCHANGED st
       /\ TRUE = \A r \in Procs : LET n == st.n[r] IN
            \A i \in 0..n[1], j \in (IF st.dim = 2 THEN 0..0 ELSE 0..n[2]), k \in 0..n[3] :
              LET e == Div1(<<E.f[r].ex, E.f[r].ey, E.f[r].ez>>, n, -1, i, j, k)
                  b == Div1(<<E.f[r].bx, E.f[r].by, E.f[r].bz>>, n, 1, i, j, k)
              IN /\ FClose(E.f[r].dive[At(n, -1, 1, i, j, k)], e[1], FMul("1e-13", e[2]))
                 /\ (IF i < n[1] /\ k < n[3] /\ (st.dim = 2 \/ j < n[2]) THEN FClose(E.f[r].divb[At(n, -1, 1, i, j, k)], b[1], FMul("1e-13", b[2])) ELSE TRUE)
Norm == /\ Is("norm") /\ UNCHANGED st
        /\ TRUE = (LET div(r) == Pick(E.d[r], st.own[r])
                       rho(r) == Pick(st.f[r].rho, st.own[r])
                       dif(r) == LET d == div(r) h == rho(r) IN [i \in 1..Cells(st.n[r]) |-> FSub(FMul(d[i], st.v[11]), h[i])]
                       w == FSum([r \in Procs |-> Sq(dif(r))])
                   IN /\ FNear(FSum([r \in Procs |-> E.e[r][1]]), w, Tol)
                      /\ \A r \in Procs : FNear(E.e[r][2], FSqrt(w), Tol)
                      /\ FNear(FSum([r \in Procs |-> E.e[r][3]]), FSum([r \in Procs |-> Sq(rho(r))]), Tol)
                      /\ FNear(FSum([r \in Procs |-> E.e[r][4]]), FSum([r \in Procs |-> Sq(div(r))]), Tol))

(* particles crossing a plane *)
Dist(n, x, p) == <<FSum([a \in 1..3 |-> FMul(n[a], FSub(x[a], p[a]))]), FSum([a \in 1..3 |-> FMul(FAbs(n[a]), FAdd(FAbs(x[a]), FAbs(p[a])))])>>
Plane == /\ Is("plane") /\ UNCHANGED st
         /\ LET caught == SelectSeq([i \in 1..Len(E.x) |-> i], LAMBDA i : E.x[i][1] = 1)
            IN TRUE = (/\ E.m = Len(caught) /\ Len(E.c) = E.m
                       /\ \A i \in 1..Len(E.x) :
                            LET x == E.x[i] new == Dist(E.v, SubSeq(x, 2, 4), E.p) old == Dist(E.v, SubSeq(x, 5, 7), E.po)
                            IN /\ FClose(x[10], new[1], FMul("1e-14", new[2])) /\ FClose(x[11], old[1], FMul("1e-14", old[2]))
                               /\ (x[1] = 1) = (FLe(x[11], "0") /\ FLt("0", x[10]))
                       /\ \A j \in 1..Len(caught) :
                            LET x == E.x[caught[j]] c == E.c[j]
                                w == FDiv(FAbs(x[11]), FAdd(FAbs(x[11]), x[10]))        \* how far between before and now
                            IN /\ FEq(c[1], x[8])
                               /\ FClose(c[2], FAdd(x[9], FMul(w, FSub(x[8], x[9]))), FMul("1e-14", FAdd(FAbs(x[8]), FAbs(x[9]))))
                               /\ FClose(c[3], "0", FMul("1e-14", FAdd(FAbs(x[10]), FAbs(x[11])))))

(* From a frame that moves with velocity beta along z to the laboratory *)
Clight == "299792458"
NearSum(a, x, y) == FClose(a, FAdd(x, y), FMul("4e-15", FAdd(FAbs(x), FAbs(y))))
EBfield(b, a, g, be) ==     \* Ex Ey Ez Bx By Bz
  LET cb == FMul(be, Clight) bc == FDiv(be, Clight) IN
  /\ NearSum(a[1], FMul(g, b[1]), FMul(FMul(g, cb), b[5])) /\ NearSum(a[5], FMul(g, b[5]), FMul(FMul(g, bc), b[1]))
  /\ NearSum(a[2], FMul(g, b[2]), FNeg(FMul(FMul(g, cb), b[4]))) /\ NearSum(a[4], FMul(g, b[4]), FNeg(FMul(FMul(g, bc), b[2])))
  /\ FEq(a[3], b[3]) /\ FEq(a[6], b[6])
Grid1(b, a, g, be) ==
  /\ EBfield(b, a, g, be) /\ FEq(a[7], b[7]) /\ FEq(a[8], b[8])
  /\ NearSum(a[9], FMul(g, b[9]), FMul(FMul(g, FMul(be, Clight)), b[10])) /\ NearSum(a[10], FMul(g, b[10]), FMul(FMul(g, FDiv(be, Clight)), b[9]))
(* x xp y yp z zp ux uxp uy uyp uz uzp g gp ex exp ey eyp ez ezp bx bxp by byp bz bzp: now and a step before; par g beta time dt t_out fields *)
Part1(b, a, par) ==
  LET g == par[1] be == par[2] t == par[3] dt == par[4] to == par[5]
      tl(z, tt) == FMul(g, FAdd(tt, FDiv(FMul(be, z), Clight)))
      tn == tl(b[5], t) tp == tl(b[6], FSub(t, dt))
      wn == FDiv(FSub(to, tp), FSub(tn, tp)) wp == FDiv(FSub(tn, to), FSub(tn, tp))
      big == FAdd(FAbs(wn), FAbs(wp))
      cond == FMul("1e-14", FAdd("10", FDiv(FAdd(FAbs(tn), FAdd(FAbs(to), FAdd(FMul(g, FAbs(t)), FMul(g, FDiv(FAdd(FAbs(b[5]), FAbs(b[6])), Clight))))), FAbs(FSub(tn, tp)))))
      mix(now, before) == FAdd(FMul(wn, now), FMul(wp, before))
      mixOK(v, now, before) == FClose(v, mix(now, before), FMul(FMul(cond, FAdd("1", big)), FAdd(FAbs(now), FAbs(before))))
      zl(z, tt) == FMul(g, FAdd(z, FMul(FMul(be, Clight), tt)))
      ul(u, gg) == FMul(g, FAdd(u, FMul(FMul(be, Clight), gg)))
      ulm(u, gg) == FMul(g, FAdd(FAbs(u), FMul(FMul(be, Clight), gg)))
      eb(o) == LET cb == FMul(be, Clight) bc == FDiv(be, Clight) IN
        <<FMul(g, FAdd(b[15 + o], FMul(cb, b[23 + o]))), FMul(g, FSub(b[17 + o], FMul(cb, b[21 + o]))), b[19 + o],
          FMul(g, FSub(b[21 + o], FMul(bc, b[17 + o]))), FMul(g, FAdd(b[23 + o], FMul(bc, b[15 + o]))), b[25 + o]>>
      ebm(o) == LET cb == FMul(be, Clight) bc == FDiv(be, Clight) IN
        <<FMul(g, FAdd(FAbs(b[15 + o]), FMul(cb, FAbs(b[23 + o])))), FMul(g, FAdd(FAbs(b[17 + o]), FMul(cb, FAbs(b[21 + o])))), FAbs(b[19 + o]),
          FMul(g, FAdd(FAbs(b[21 + o]), FMul(bc, FAbs(b[17 + o])))), FMul(g, FAdd(FAbs(b[23 + o]), FMul(bc, FAbs(b[15 + o])))), FAbs(b[25 + o])>>
      near(v, now, before, mag) == FClose(v, mix(now, before), FMul(FMul(cond, FAdd("1", big)), mag))
  IN /\ mixOK(a[1], b[1], b[2]) /\ mixOK(a[3], b[3], b[4])
     /\ near(a[5], zl(b[5], t), zl(b[6], FSub(t, dt)), FMul(g, FSum(<<FAbs(b[5]), FAbs(b[6]), FMul(Clight, FAbs(t)), FMul(Clight, dt)>>)))
     /\ mixOK(a[7], b[7], b[8]) /\ mixOK(a[9], b[9], b[10])
     /\ near(a[11], ul(b[11], b[13]), ul(b[12], b[14]), FAdd(ulm(b[11], b[13]), ulm(b[12], b[14])))
     /\ (IF FEq(par[6], "1")
         THEN \A i \in 1..6 : near(a[13 + 2 * i], eb(0)[i], eb(1)[i], FAdd(ebm(0)[i], ebm(1)[i]))
         ELSE \A i \in 15..26 : FEq(a[i], b[i]))
Lor == /\ Is("lor") /\ UNCHANGED st
       /\ TRUE = (Len(E.a) = Len(E.b) /\ \A i \in 1..Len(E.a) :
            IF E.how = "lorp" THEN Part1(E.b[i], E.a[i], E.par) ELSE Grid1(E.b[i], E.a[i], E.par[1], E.par[2]))

TraceInit == st = <<>> /\ l = 1
TraceNext == State \/ Count \/ Quant \/ Energy \/ Em \/ Div \/ Norm \/ Plane \/ Lor
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
