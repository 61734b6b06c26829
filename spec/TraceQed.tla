------------------------------ MODULE TraceQed ------------------------------
(* Checks traces recorded from the QED library (harness/qed.cpp) against QedOps.  The state S holds what the library's
   objects must hold: the tables made so far (with the storage that views share with their owners), the files written,
   the engines (units, controls, tables, position in the stream of random numbers) and the random streams seen so far. *)
EXTENDS QedOps, TraceIO

VARIABLES l, S
vars == <<l, S>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
None == [x \in {} |-> 0]
DefBW == [cmin |-> "0.001", tmin |-> "0.1", tmax |-> "500", tn |-> 50, pmin |-> "0.01", pmax |-> "500", pn |-> 50, fn |-> 50]
DefQS == [cmin |-> "0.001", tmin |-> "0.001", tmax |-> "200", tn |-> 64, pmin |-> "0.001", pmax |-> "200", pn |-> 64, fn |-> 256]
Fresh(e) == [U |-> Unit[e.norm], float |-> e.float, eps |-> Eps(e.float), bwc |-> DefBW, qsc |-> DefQS,
             st |-> <<>>, t1 |-> None, t2 |-> None, files |-> None, eng |-> None, sw |-> None, rnd |-> None]
Init == l = 1 /\ S = Fresh([norm |-> FALSE, float |-> FALSE])

\* ---------------------------------------------------------------- comparisons
Num(a, b) == FEq(a, b) \/ (FNaN(a) /\ FNaN(b))
\* a value given in double precision, as the implementation's precision holds it
Given(a, b) == FNear(a, b, S.eps)
\* (compared with TRUE: TLC would take the disjunctions of an action for alternatives)
Holds(x) == x = TRUE
Seqs(a, b) == Holds(Len(a) = Len(b) /\ \A i \in 1..Len(a) : Num(a[i], b[i]))
CtrlOf(e) == [cmin |-> e.cmin, tmin |-> e.tmin, tmax |-> e.tmax, tn |-> e.tn, pmin |-> e.pmin, pmax |-> e.pmax, pn |-> e.pn, fn |-> e.fn]
CtrlOK(e, c) == /\ Given(e.cmin, c.cmin) /\ Given(e.tmin, c.tmin) /\ Given(e.tmax, c.tmax) /\ e.tn = c.tn
                /\ Given(e.pmin, c.pmin) /\ Given(e.pmax, c.pmax) /\ e.pn = c.pn /\ e.fn = c.fn

\* ---------------------------------------------------------------- plain functions
VecOK(e) ==
  LET t == Times(8, S.eps)
      sc == FMul(FAdd(VNorm(e.a), VNorm(e.b)), FAdd(VNorm(e.a), VNorm(e.b)))
      la == FAdd(VNorm(e.a), VNorm(e.b))
  IN /\ FNear(e.norm2, VNorm2(e.a), t) /\ FNear(e.norm, VNorm(e.a), t)
     /\ FClose(e.dot, FDot(e.a, e.b), FMul(t, sc)) /\ VNear(e.cross, VCross(e.a, e.b), FMul(t, sc))
     /\ VNear(e.add, VAdd(e.a, e.b), FMul(t, la)) /\ VNear(e.sub, VSub(e.a, e.b), FMul(t, la))
     /\ \A i \in 1..3 : /\ FNear(e.vs[i], FMul(e.s, e.a[i]), t) /\ FNear(e.sv[i], FMul(e.s, e.a[i]), t)
                        /\ FNear(e.div[i], FDiv(e.a[i], e.s), t)
     /\ e.size = 3 /\ e.span = 3
     /\ FClose(e.iter, FSum(<<e.a[1], FMul("2", e.a[2]), FMul("3", e.a[3])>>), FMul(Times(16, S.eps), VNorm(e.a)))
     /\ VNear(e.plus1, VAdd(e.b, <<"1", "1", "1">>), FMul(t, FAdd("1", VNorm(e.b))))
ChiOK(e) ==
  /\ InIv(e.ph, ChiPhotonIv(S.U, S.eps, e.p, e.e, e.b, e.lam), "0", "0")
  /\ InIv(e.le, ChiLeptonIv(S.U, S.eps, e.p, e.e, e.b, e.lam), Times(16, S.eps), "0")
  /\ "ph1" \in DOMAIN e => FEq(e.ph1, e.ph) /\ FEq(e.le1, e.le)          \* the default of lambda is one
KvOK(e) == LET w == KNu(e.v, e.x) IN FNear(e.r, w, IF S.float THEN "2e-5" ELSE "1e-9") \/ FClose(e.r, w, "1e-37")
\* integral of exp(-k t) t^m (m = 0..2) from a to b; the absolute accuracy is relative to the integral of t^m
QuadOK(e) ==
  LET P(t) == LET k == e.kk IN
                CASE e.m = 0 -> FDiv("-1", k)
                  [] e.m = 1 -> FNeg(FAdd(FDiv(t, k), FDiv("1", FMul(k, k))))
                  [] e.m = 2 -> FNeg(FAdd(FDiv(FMul(t, t), k), FAdd(FDiv(FMul("2", t), FMul(k, k)), FDiv("2", FMul(FMul(k, k), k)))))
      G(t) == FMul(P(t), FExp(FNeg(FMul(e.kk, t))))
      w == IF e.kind = "inf" THEN FNeg(G(e.a)) ELSE FSub(G(e.b), G(e.a))
      t == IF S.float THEN "2e-3" ELSE IF e.kind = "ab" THEN "1e-5" ELSE "1e-6"
  IN FNear(e.r, w, t)
RootOK(e) == FNear(FPow(e.r, F(e.m)), e.c, Times(64 * e.m, S.eps))
MsgOK(e) == e.a = e.t /\ e.b = e.t
RngOK(e) ==
  LET n == Len(e.x) IN
  /\ Seqs(e.x, e.y) /\ Seqs(e.z, e.y)                    \* the standard generator, whichever way the wrapper was made
  /\ Seqs(e.f, SubSeq(e.x, n - Len(e.f) + 1, n))         \* an assigned wrapper goes on where the other one was
  /\ FEq(e.n1, e.n3)
  /\ \A i \in 1..n : FFinite(e.x[i]) /\ (FEq(e.k[i], "1") => FLe(e.a, e.x[i]) /\ FLe(e.x[i], e.b)) /\ (FEq(e.k[i], "0") => FLe("0", e.x[i]))

\* ---------------------------------------------------------------- tables
V1(x) == [c |-> S.st[x.c], d |-> S.st[x.d]]
V2(x) == [c1 |-> S.st[x.c1], c2 |-> S.st[x.c2], d |-> S.st[x.d]]
T1OK(e, init, c, d) == e.init = init /\ Seqs(e.c, c) /\ Seqs(e.d, d)
T2OK(e, init, c1, c2, d) == e.init = init /\ Seqs(e.c1, c1) /\ Seqs(e.c2, c2) /\ Seqs(e.d, d)
\* a new table with storage of its own
Make1(slot, init, c, d) == [S EXCEPT !.st = @ \o <<c, d>>, !.t1 = Put(@, slot, [init |-> init, c |-> Len(S.st) + 1, d |-> Len(S.st) + 2])]
Make2(slot, init, c1, c2, d) ==
  [S EXCEPT !.st = @ \o <<c1, c2, d>>, !.t2 = Put(@, slot, [init |-> init, c1 |-> Len(S.st) + 1, c2 |-> Len(S.st) + 2, d |-> Len(S.st) + 3])]
ToFile(f, t) == Put(S.files, f, IF f \in DOMAIN S.files THEN [S.files[f] EXCEPT !.data = Append(@, t)] ELSE [data |-> <<t>>, pos |-> 0])

Tab1(e) ==
  CASE e.ev = "t1new" -> T1OK(e, TRUE, e.ic, e.id) /\ S' = Make1(e.s, TRUE, e.ic, e.id)
    [] e.ev = "t1def" -> T1OK(e, FALSE, <<>>, <<>>) /\ S' = Make1(e.s, FALSE, <<>>, <<>>)
    [] e.ev \in {"t1copy", "t1asg"} ->
         LET o == S.t1[e.o] IN
         /\ T1OK(e, o.init, V1(o).c, V1(o).d)
         /\ e.ev = "t1asg" => e.self
         /\ S' = IF e.s = e.o THEN S ELSE Make1(e.s, o.init, V1(o).c, V1(o).d)
    [] e.ev = "t1move" ->
         LET o == S.t1[e.o] IN T1OK(e, o.init, V1(o).c, V1(o).d) /\ S' = [S EXCEPT !.t1 = Put(Del(@, e.o), e.s, o)]
    [] e.ev = "t1raw" ->           \* a view: shares the storage
         LET o == S.t1[e.o] IN T1OK(e, TRUE, V1(o).c, V1(o).d) /\ S' = [S EXCEPT !.t1 = Put(@, e.s, [o EXCEPT !.init = TRUE])]
    [] e.ev = "t1set" ->
         LET o == S.t1[e.s]
             d == [V1(o).d EXCEPT ![e.i + 1] = e.v]
         IN T1OK(e, o.init, V1(o).c, d) /\ S' = [S EXCEPT !.st[o.d] = d]
    [] e.ev = "t1setc" ->          \* a copy of the coordinates was changed
         Seqs(e.c, [V1(S.t1[e.s]).c EXCEPT ![e.i + 1] = e.v]) /\ UNCHANGED S
    [] e.ev \in {"t1q", "t1g"} ->
         LET t == V1(S.t1[e.s])
             w == Interp1(t.c, t.d, e.x)
             d == Interp1Err(t.c, t.d, e.x, S.eps)
         IN FClose(e.gen, w, d) /\ Holds("eq" \in DOMAIN e => FClose(e.eq, w, d)) /\ UNCHANGED S
    [] e.ev = "t1wr" ->
         LET o == S.t1[e.s] IN T1OK(e, o.init, V1(o).c, V1(o).d) /\ S' = [S EXCEPT !.files = ToFile(e.f, V1(o))]
    [] e.ev = "t1rd" ->
         LET f == S.files[e.f]
             t == f.data[f.pos + 1]
         IN e.good /\ T1OK(e, TRUE, t.c, t.d) /\ S' = [Make1(e.s, TRUE, t.c, t.d) EXCEPT !.files[e.f].pos = @ + 1]
    [] e.ev = "t1get" -> LET o == S.t1[e.s] IN T1OK(e, o.init, V1(o).c, V1(o).d) /\ UNCHANGED S
    [] e.ev = "t1free" -> S' = [S EXCEPT !.t1 = Del(@, e.s)]

Tab2(e) ==
  CASE e.ev = "t2new" -> T2OK(e, TRUE, e.ic1, e.ic2, e.id) /\ S' = Make2(e.s, TRUE, e.ic1, e.ic2, e.id)
    [] e.ev = "t2def" -> T2OK(e, FALSE, <<>>, <<>>, <<>>) /\ S' = Make2(e.s, FALSE, <<>>, <<>>, <<>>)
    [] e.ev \in {"t2copy", "t2asg"} ->
         LET o == S.t2[e.o]
             v == V2(o)
         IN /\ T2OK(e, o.init, v.c1, v.c2, v.d)
            /\ e.ev = "t2asg" => e.self
            /\ S' = IF e.s = e.o THEN S ELSE Make2(e.s, o.init, v.c1, v.c2, v.d)
    [] e.ev = "t2move" -> LET o == S.t2[e.o] IN T2OK(e, o.init, V2(o).c1, V2(o).c2, V2(o).d) /\ S' = [S EXCEPT !.t2 = Put(Del(@, e.o), e.s, o)]
    [] e.ev = "t2raw" -> LET o == S.t2[e.o] IN T2OK(e, TRUE, V2(o).c1, V2(o).c2, V2(o).d) /\ S' = [S EXCEPT !.t2 = Put(@, e.s, [o EXCEPT !.init = TRUE])]
    [] e.ev = "t2set" ->
         LET o == S.t2[e.s]
             d == [V2(o).d EXCEPT ![e.i + 1] = e.v]
         IN T2OK(e, o.init, V2(o).c1, V2(o).c2, d) /\ S' = [S EXCEPT !.st[o.d] = d]
    [] e.ev = "t2at" ->
         LET t == V2(S.t2[e.s])
         IN Holds(Num(e.v, At(t.d, Len(t.c2), e.i + 1, e.j + 1)) /\ Num(e.c1, t.c1[e.i + 1]) /\ Num(e.c2, t.c2[e.j + 1])) /\ UNCHANGED S
    [] e.ev \in {"t2q", "t2g"} ->
         LET t == V2(S.t2[e.s])
             w == Interp2(t.c1, t.c2, t.d, e.x, e.y)
             d == Interp2Err(t.c1, t.c2, t.d, e.x, e.y, S.eps)
         IN FClose(e.gen, w, d) /\ Holds("eq" \in DOMAIN e => FClose(e.eq, w, d)) /\ UNCHANGED S
    [] e.ev \in {"t2f", "t2fg", "t2fe"} ->   \* along the first coordinate; the equispaced form takes the end value beyond the ends
         LET t == V2(S.t2[e.s])
             n == Len(t.c1)
             c == Column(t.d, n, Len(t.c2), e.j + 1)
             x == Clamp(e.x, t.c1[1], t.c1[n])
             i == Bracket(t.c1, x)
             w == Interp1(t.c1, c, x)
             d == Interp1Err(t.c1, c, x, S.eps)
             inf == ~FFinite(c[i]) \/ ~FFinite(c[i + 1])
             One(r) == IF inf THEN Num(r, IF FEq(x, t.c1[i]) THEN c[i] ELSE IF FEq(x, t.c1[i + 1]) THEN c[i + 1] ELSE "-inf")
                       ELSE IF FFinite(d) THEN FClose(r, w, d) ELSE TRUE
         IN Holds(("gen" \in DOMAIN e => One(e.gen)) /\ ("eq" \in DOMAIN e => One(e.eq))) /\ UNCHANGED S
    [] e.ev = "t2wr" -> LET o == S.t2[e.s] IN T2OK(e, o.init, V2(o).c1, V2(o).c2, V2(o).d) /\ S' = [S EXCEPT !.files = ToFile(e.f, V2(o))]
    [] e.ev = "t2rd" ->
         LET f == S.files[e.f]
             t == f.data[f.pos + 1]
         IN e.good /\ T2OK(e, TRUE, t.c1, t.c2, t.d) /\ S' = [Make2(e.s, TRUE, t.c1, t.c2, t.d) EXCEPT !.files[e.f].pos = @ + 1]
    [] e.ev = "t2get" -> LET o == S.t2[e.s] IN T2OK(e, o.init, V2(o).c1, V2(o).c2, V2(o).d) /\ UNCHANGED S
    [] e.ev = "t2free" -> S' = [S EXCEPT !.t2 = Del(@, e.s)]

\* ---------------------------------------------------------------- the functions meant for GPUs
Energy(p) == FMul(VNorm(p), S.U.c)
\* a rate (or the factor of it that falls exponentially) below the range of the type is not accurate
Low(k, lam, en, chi) == FMul(IF S.float THEN "1e-36" ELSE "1e-305", FAdd("1", FDiv(FMul(IF k = "bw" THEN S.U.bw ELSE S.U.qs, Lam(S.U, lam)), FMul(en, FMin("1", chi)))))
\* has the optical depth evolved as it must?  t1: the rate table, or <<>> when there is none
Evolve(k, e, lam, ct, has, t1) ==
  LET chi == ChiIv(k, S.U, S.eps, e.p, e.e, e.b, lam)
      en == Energy(e.p)
      two == FMul("2", S.U.mc2)
      t4 == Times(8, S.eps)
      must == FLe(chi[2], ct.cmin) \/ (k = "bw" /\ FLt(FMul(en, FAdd("1", t4)), two))
      may == FLe(chi[1], ct.cmin) \/ (k = "bw" /\ FLt(FMul(en, FSub("1", t4)), two))
      r == IF has THEN RateIv(k, S.U, ct, t1, lam, en, chi, S.eps) ELSE ExactRateIv(k, S.U, lam, en, chi)
      low == Low(k, lam, en, chi[1])
      t == FAdd(IF has THEN RateTol(k, ct, t1, chi, S.eps) ELSE IntegTol(k, S.float), Times(16, S.eps))
  IN IF must THEN EvolveSkip(e, e.opt)
     ELSE (may /\ EvolveSkip(e, e.opt)) \/ (IF FLt(r[1], low) THEN EvolveLow(e, e.opt, e.dt, FMax(FMul("2", r[2]), low), S.eps) ELSE EvolveOK(e, e.opt, e.dt, r, t, S.eps))
\* must the engine complain about a missing table?
Complains(k, e, lam, ct, has) ==
  LET chi == ChiIv(k, S.U, S.eps, e.p, e.e, e.b, lam) IN ~has /\ FLt(ct.cmin, chi[1]) /\ (k = "bw" => FLe(FMul("2.0001", S.U.mc2), Energy(e.p)))
RateOK(k, e, lam, ct, t1) ==
  IF FEq(e.en, "0") \/ FEq(e.chi, "0") THEN FEq(e.r, "0")
  ELSE LET iv == <<e.chi, e.chi>> IN InIv(e.r, RateIv(k, S.U, ct, t1, lam, e.en, iv, S.eps), FAdd(RateTol(k, ct, t1, iv, S.eps), Times(16, S.eps)), Low(k, lam, e.en, e.chi))
PairsOK(e, lam, t2, ct, u) ==
  LET chi == ChiPhotonIv(S.U, S.eps, e.p, e.e, e.b, lam) IN
  /\ Len(e.ele) = e.n /\ Len(e.pos) = e.n
  /\ \A i \in 1..e.n : BWPairOK(S.U, S.eps, e.p, e.w, e.n, chi, t2, ct, u[i], e.ele[i], e.pos[i])
PhotonsOK(e, lam, t2, ct, u) ==
  LET chi == ChiLeptonIv(S.U, S.eps, e.p, e.e, e.b, lam) IN
  /\ Len(e.ph) = e.n
  /\ \A i \in 1..e.n : QSPhotonOK(S.U, S.eps, e.p, e.w, e.n, chi, t2, ct, u[i], e.ph[i])
  /\ RecoilOK(S.eps, e.p, e.q, e.n, e.ph)
SwOK(e, lam) == InIv(e.r, SwIv(S.U, S.eps, e.e, e.b, lam), SwTol(S.eps), SwLow(S.U, S.float, lam))
Volume(d) == FMul(FMul(d[1], d[2]), d[3])
SwOneOK(e, lam, u, has, w) ==
  LET r == SwIv(S.U, S.eps, e.e, e.b, lam)
      vt == FMul(Volume(e.d), e.dt)
  IN /\ FNear(w, FDiv("1", Volume(e.d)), Times(8, S.eps))
     /\ FLt(SwLow(S.U, S.float, lam), r[1]) /\ FLt(u, FMul(FMul(r[1], vt), FSub("1", SwTol(S.eps)))) => has
     /\ has => FLe(u, FMul(FMul(FAdd(r[2], SwLow(S.U, S.float, lam)), vt), FAdd("1", SwTol(S.eps))))
SwManyOK(e, lam, u, m, w) ==
  LET r == SwIv(S.U, S.eps, e.e, e.b, lam)
      vt == FMul(Volume(e.d), e.dt)
      t == SwTol(S.eps)
      low == SwLow(S.U, S.float, lam)
      \* the least and the largest mean: the number grows with it
      a == IF FLe(r[1], low) THEN "0" ELSE FMul(FMul(r[1], vt), FSub("1", t))
      z == FMul(FMul(FAdd(r[2], low), vt), FAdd("1", t))
      tol == PoisTol(m, z, S.eps)
  IN /\ FNear(w, FDiv("1", Volume(e.d)), Times(8, S.eps))
     /\ m = 0 \/ FLe(PoisCdf(m - 1, z), FAdd(u, tol))
     /\ FLe(FSub(u, tol), PoisCdf(m, a))

Core(e) ==
  CASE e.ev = "od" -> LET w == FNeg(FLog(FSub("1", e.u))) IN FClose(e.bw, w, FMul(Times(8, S.eps), FAdd("1", w))) /\ FClose(e.qs, w, FMul(Times(8, S.eps), FAdd("1", w)))
    [] e.ev = "bwrate" -> RateOK("bw", e, e.lam, S.bwc, V1(S.t1[e.s]))
    [] e.ev = "qsrate" -> RateOK("qs", e, e.lam, S.qsc, V1(S.t1[e.s]))
    [] e.ev \in {"bwevo", "qsevo"} ->
         LET k == SubSeq(e.ev, 1, 2)
             ct == IF k = "bw" THEN S.bwc ELSE S.qsc
             t == S.t1[e.s]
         IN IF t.init THEN e.ok /\ Evolve(k, e, e.lam, ct, TRUE, V1(t))
            ELSE EvolveSkip(e, e.opt) /\ (e.ok => ~Complains(k, e, e.lam, ct, FALSE)) /\ (~e.ok => ~FLe(ChiIv(k, S.U, S.eps, e.p, e.e, e.b, e.lam)[2], ct.cmin))
    [] e.ev = "bwpair" -> e.ok /\ e.guard /\ PairsOK(e, e.lam, V2(S.t2[e.s]), S.bwc, e.u)
    [] e.ev = "qsphot" -> e.ok /\ e.guard /\ PhotonsOK(e, e.lam, V2(S.t2[e.s]), S.qsc, e.u)
    [] e.ev = "sw" ->
         /\ SwOK(e @@ [r |-> e.rate], e.lam)
         /\ SwOneOK(e, e.lam, e.u, e.has, e.w1)
         /\ e.m # -1 => SwManyOK(e, e.lam, e.u, e.m, e.wm)

\* ---------------------------------------------------------------- engines
\* The random numbers drawn by a command: those preset, then those of the stream, which is a function of the seed and of
\* the draws before.  want: sequence of <<kind, a, b>>, kind "u" (uniform in [a, b)) or "e" (exponential).
RECURSIVE DrawsOK(_, _, _, _)
DrawsOK(r, want, dr, rnd) ==      \* -> [ok, r, rnd]
  IF want = <<>> THEN [ok |-> dr = <<>>, r |-> r, rnd |-> rnd]
  ELSE IF dr = <<>> THEN [ok |-> FALSE, r |-> r, rnd |-> rnd]
  ELSE LET w == Head(want)
           d == Head(dr)
           same == FEq(d[2], w[2]) /\ FEq(d[3], w[3])
       IN IF r.pre # <<>>
          THEN IF same /\ d[1] = (IF w[1] = "u" THEN "U" ELSE "E")
               THEN DrawsOK([r EXCEPT !.pre = Tail(@)], Tail(want), Tail(dr), rnd)
               ELSE [ok |-> FALSE, r |-> r, rnd |-> rnd]
          ELSE LET h == Append(r.hist, w)
                   k == <<r.seed, h>>
               IN IF same /\ d[1] = w[1] /\ (k \in DOMAIN rnd => FEq(rnd[k], d[4]))
                  THEN DrawsOK([r EXCEPT !.hist = h], Tail(want), Tail(dr), Put(rnd, k, d[4]))
                  ELSE [ok |-> FALSE, r |-> r, rnd |-> rnd]
Drawn(e) == [i \in 1..Len(e.dr) |-> e.dr[i][4]]
Uni(n) == [i \in 1..n |-> <<"u", "0", "1">>]

NoTab == [has |-> FALSE, c |-> <<>>, d |-> <<>>]
NoTab2 == [has |-> FALSE, c1 |-> <<>>, c2 |-> <<>>, d |-> <<>>]
StateOK(e, g) ==
  /\ FEq(e.lam, g.lam) /\ FEq(e.glam, g.lam)
  /\ CtrlOK(e, g.ct)
  /\ Seqs(e.t1c, g.t1.c) /\ Seqs(e.t1d, g.t1.d)
  /\ Seqs(e.t2c1, g.t2.c1) /\ Seqs(e.t2c2, g.t2.c2) /\ Seqs(e.t2d, g.t2.d)
Key(e) == <<e.k, e.s>>
SetE(e, g) == [S EXCEPT !.eng = Put(@, Key(e), g)]

\* accuracy of the tables that the engines compute, on the logarithm of a rate and on a probability
LogTol(k) == IF ~S.float THEN "1e-4" ELSE IF k = "bw" THEN "1e-2" ELSE "4e-3"
CoordsOK(c, a, b, n) == Len(c) = n /\ \A i \in 1..n : FClose(c[i], FLog(LogPt(a, b, n, i - 1)), FMul(Times(8 * n + 16, S.eps), FAdd("1", FAdd(FAbs(FLog(a)), FAbs(FLog(b))))))
Table1OK(k, ct, c, d) ==
  /\ CoordsOK(c, ct.tmin, ct.tmax, ct.tn) /\ Len(d) = ct.tn
  /\ \A i \in 1..ct.tn : LET w == FLog(IF k = "bw" THEN BWT(FExp(c[i])) ELSE QSK(FExp(c[i])))
                         IN IF FLt(w, IF S.float THEN "-80" ELSE "-600") THEN FLe(d[i], FAdd(w, "1")) ELSE FClose(d[i], w, LogTol(k))
(* For small chi the rate of pairs underflows, and its shares with it: what is left of the distribution is that it is sharp about one half
   (its width is less than 6 sqrt(3 chi / 64)). *)
Faint(chi) == FLt(chi, IF S.float THEN "0.05" ELSE "0.005")
FaintOK(chi, f, p) ==
  /\ FLe("0", p) /\ FLe(p, "1.02")
  /\ FLe(f, FSub("0.5", FMul("6", FSqrt(FMul("0.046875", chi))))) => FLe(p, "0.02")
  /\ FLe(FAdd("0.5", FMul("6", FSqrt(FMul("0.046875", chi)))), f) => FLe("0.98", p)
  /\ (FLe(f, "0.499999") => FLe(p, "0.51")) /\ (FLe("0.500001", f) => FLe("0.49", p))
  /\ FEq(f, "0.5") => FClose(p, "0.5", "1e-2")
Table2OK(k, ct, c1, c2, d) ==
  /\ CoordsOK(c1, ct.pmin, ct.pmax, ct.pn) /\ Len(c2) = ct.fn /\ Len(d) = ct.pn * ct.fn
  /\ \A j \in 1..ct.fn : FClose(c2[j], IF k = "bw" THEN FMul("0.5", Q(j - 1, ct.fn - 1)) ELSE Q(j - 1, ct.fn - 1), Times(4, S.eps))
  /\ \A i \in 1..ct.pn, j \in 1..ct.fn :
       LET x == At(d, ct.fn, i, j)
           chi == FExp(c1[i])
       IN IF k = "bw"
          THEN IF j = 1 THEN x = "-inf"
               ELSE IF j = ct.fn THEN FNear(x, FLog("0.5"), Times(8, S.eps))
               ELSE IF Faint(chi) THEN FaintOK(chi, c2[j], FExp(x)) /\ FLe(FExp(At(d, ct.fn, i, j - 1)), FAdd(FExp(x), "0.02"))
               ELSE FClose(FExp(x), BWCum(chi, c2[j]), LogTol("bw")) 
          \* the last points stand for probabilities just above zero and just below one
          ELSE LET pr == IF j = 1 THEN FDiv(c2[2], "10") ELSE IF j = ct.fn THEN FSub("1", FDiv(FSub("1", c2[j - 1]), "10")) ELSE c2[j]
               IN FClose(QSCum(chi, FExp(x)), pr, LogTol("qs"))

Engine(e) ==
  LET k == e.k
      U == S.U
      old == Key(e) \in DOMAIN S.eng
      g == IF old THEN S.eng[Key(e)] ELSE [lam |-> "1"]
      Same(h) == StateOK(e, h) /\ S' = SetE(e, h)
      Draw(want, ok(_)) == LET q == DrawsOK(g.r, want, e.dr, S.rnd)
                           IN q.ok /\ Holds(ok(Drawn(e))) /\ S' = [SetE(e, [g EXCEPT !.r = q.r]) EXCEPT !.rnd = q.rnd]
  IN CASE e.ev = "e_new" -> Same([lam |-> Lam(U, e.lam0), ct |-> IF k = "bw" THEN S.bwc ELSE S.qsc, t1 |-> NoTab, t2 |-> NoTab2, r |-> [seed |-> e.seed, hist |-> <<>>, pre |-> <<>>]])
       [] e.ev = "e_new0" -> Same([lam |-> "1", ct |-> IF k = "bw" THEN DefBW ELSE DefQS, t1 |-> NoTab, t2 |-> NoTab2, r |-> [seed |-> e.seed, hist |-> <<>>, pre |-> <<>>]])
       [] e.ev = "e_copy" -> Same(S.eng[<<k, e.o>>])
       [] e.ev = "e_asg" -> ("self" \in DOMAIN e => e.self) /\ Same(S.eng[<<k, e.o>>])
       [] e.ev = "e_inn" -> LET o == S.eng[<<k, e.o>>] IN Same([o EXCEPT !.t1.has = TRUE, !.t2.has = TRUE])
       [] e.ev = "e_move" -> LET o == S.eng[<<k, e.o>>] IN StateOK(e, o) /\ S' = [S EXCEPT !.eng = Put(Del(@, <<k, e.o>>), Key(e), o)]
       [] e.ev = "e_lam" -> Same([g EXCEPT !.lam = IF U.norm THEN e.v ELSE @])
       [] e.ev = "e_t1" -> Holds(Table1OK(k, g.ct, e.t1c, e.t1d)) /\ Same([g EXCEPT !.t1 = [has |-> TRUE, c |-> e.t1c, d |-> e.t1d]])
       [] e.ev = "e_t2" -> Holds(Table2OK(k, g.ct, e.t2c1, e.t2c2, e.t2d)) /\ Same([g EXCEPT !.t2 = [has |-> TRUE, c1 |-> e.t2c1, c2 |-> e.t2c2, d |-> e.t2d]])
       [] e.ev = "e_wr1" -> StateOK(e, g) /\ S' = [S EXCEPT !.files = Put(@, e.f, g.t1)]
       [] e.ev = "e_wr2" -> StateOK(e, g) /\ S' = [S EXCEPT !.files = Put(@, e.f, g.t2)]
       [] e.ev = "e_rd1" -> Same([g EXCEPT !.t1 = [S.files[e.f] EXCEPT !.has = TRUE]])
       [] e.ev = "e_rd2" -> Same([g EXCEPT !.t2 = [S.files[e.f] EXCEPT !.has = TRUE]])
       [] e.ev = "e_free" -> S' = [S EXCEPT !.eng = Del(@, Key(e))]
       [] e.ev = "e_get" -> Same(g)
       [] e.ev = "e_pre" -> e.dr = <<>> /\ S' = SetE(e, [g EXCEPT !.r.pre = @ \o e.u])
       [] e.ev = "e_rate" -> e.dr = <<>> /\ Holds(RateOK(k, e, g.lam, g.ct, g.t1)) /\ UNCHANGED S
       [] e.ev = "e_dir" ->
            /\ e.dr = <<>> /\ FEq(e.lam, g.lam)
            /\ IF FEq(e.en, "0") \/ FEq(e.chi, "0") THEN FEq(e.r, "0")
               ELSE InIv(e.r, ExactRateIv(k, U, g.lam, e.en, <<e.chi, e.chi>>), IntegTol(k, S.float), IF S.float THEN "1e-30" ELSE "1e-280")
            /\ UNCHANGED S
       [] e.ev = "e_cum" -> e.dr = <<>> /\ (IF k = "bw" /\ Faint(e.chi) THEN FaintOK(e.chi, FDiv(e.x, e.chi), e.r) ELSE FClose(e.r, IF k = "bw" THEN BWCum(e.chi, FDiv(e.x, e.chi)) ELSE QSCum(e.chi, FDiv(e.x, e.chi)), LogTol(k))) /\ UNCHANGED S
       [] e.ev = "e_od" -> Draw(<<<<"e", "1", "1">>>>, LAMBDA u : FEq(e.r, u[1]))
       [] e.ev = "e_evo" -> /\ e.dr = <<>> /\ Holds(Evolve(k, e, g.lam, g.ct, g.t1.has, g.t1))
                            /\ Holds((Complains(k, e, g.lam, g.ct, g.t1.has) => e.err) /\ (e.err => ~g.t1.has))
                            /\ UNCHANGED S
       [] e.ev = "e_gen" -> Draw(Uni(e.n), LAMBDA u : IF k = "bw" THEN PairsOK(e, g.lam, g.t2, g.ct, u) ELSE PhotonsOK(e, g.lam, g.t2, g.ct, u))

Schwinger(e) ==
  LET old == e.s \in DOMAIN S.sw
      g == IF old THEN S.sw[e.s] ELSE [lam |-> "1"]
      Same(h) == FEq(e.glam, h.lam) /\ e.dr = <<>> /\ S' = [S EXCEPT !.sw = Put(@, e.s, h)]
      Draw(want, ok(_)) == LET q == DrawsOK(g.r, want, e.dr, S.rnd)
                           IN q.ok /\ FEq(e.glam, g.lam) /\ Holds(ok(Drawn(e))) /\ S' = [S EXCEPT !.sw = Put(@, e.s, [g EXCEPT !.r = q.r]), !.rnd = q.rnd]
  IN CASE e.ev = "s_new" -> Same([lam |-> Lam(S.U, e.lam0), r |-> [seed |-> e.seed, hist |-> <<>>, pre |-> <<>>]])
       [] e.ev = "s_copy" -> Same(S.sw[e.o])
       [] e.ev = "s_move" -> LET o == S.sw[e.o] IN FEq(e.glam, o.lam) /\ S' = [S EXCEPT !.sw = Put(Del(@, e.o), e.s, o)]
       [] e.ev = "s_lam" -> Same([g EXCEPT !.lam = IF S.U.norm THEN e.v ELSE @])
       [] e.ev = "s_pos" -> Draw(Uni(3), LAMBDA u : Seqs(e.r, u))
       [] e.ev = "s_rate" -> Holds(SwOK(e, g.lam)) /\ Same(g)
       [] e.ev = "s_one" -> Draw(Uni(1), LAMBDA u : SwOneOK(e, g.lam, u[1], e.has, e.w))
       [] e.ev = "s_many" -> Draw(Uni(1), LAMBDA u : SwManyOK(e, g.lam, u[1], e.m, e.w))

Plain(e) ==
  CASE e.ev = "vec" -> VecOK(e)
    [] e.ev = "chi" -> ChiOK(e)
    [] e.ev = "spaced" -> SpacedOK(e.kind, e.min, e.max, e.n, e.v, S.eps)
    [] e.ev = "ub" -> UpperOK(e.x, e.v, e.r)
    [] e.ev = "poi" -> PoissonOK(e.r, e.lam, e.u, PoisTol(e.r, e.lam, S.eps))
    [] e.ev = "kv" -> KvOK(e)
    [] e.ev = "quad" -> QuadOK(e)
    [] e.ev = "root" -> RootOK(e)
    [] e.ev = "msg" -> MsgOK(e)
    [] e.ev = "rng" -> RngOK(e)

PlainEv == {"vec", "chi", "spaced", "ub", "poi", "kv", "quad", "root", "msg", "rng"}
CoreEv == {"od", "bwrate", "qsrate", "bwevo", "qsevo", "bwpair", "qsphot", "sw"}

Step(e) ==
  IF e.ev = "hdr" THEN S' = Fresh(e)
  ELSE IF e.ev = "bwctrl" THEN S' = [S EXCEPT !.bwc = CtrlOf(e)]
  ELSE IF e.ev = "qsctrl" THEN S' = [S EXCEPT !.qsc = CtrlOf(e)]
  ELSE IF e.ev = "rewind" THEN S' = [S EXCEPT !.files[e.f].pos = 0]
  ELSE IF e.ev \in PlainEv THEN Holds(Plain(e)) /\ UNCHANGED S
  ELSE IF e.ev \in CoreEv THEN Holds(Core(e)) /\ UNCHANGED S
  ELSE IF SubSeq(e.ev, 1, 2) = "t1" THEN Tab1(e)
  ELSE IF SubSeq(e.ev, 1, 2) = "t2" THEN Tab2(e)
  ELSE IF SubSeq(e.ev, 1, 2) = "e_" THEN Engine(e)
  ELSE IF SubSeq(e.ev, 1, 2) = "s_" THEN Schwinger(e)
  ELSE FALSE

Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
=============================================================================
