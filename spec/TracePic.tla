------------------------------ MODULE TracePic ------------------------------
(* Checks depositions of charge and current, gathering of fields and the whole of a step's deposition recorded from the real code.
   On top of the events of TraceField:
     part   E.p: rank -> sequence of particles <<id, x, y, z, dx, dy, dz, charge, fields...>> that deposit, sorted by id
            (lengths in 1/U of a cell, x from the lower corner of the box)
     jdep, rdep   one deposition; E.alg: "dir" or "esir"
     keep, cont   remembers the charge density; charge conservation between keep and now
     gath   E.p again, with the fields gathered at each particle *)
EXTENDS TraceField, DepositOps

VARIABLE pt
pvars == <<cfg, st, sg, l, pt>>

Dens == TLCEval([a \in 1..3 |-> IF cfg.dim = 2 /\ a = 2 THEN 1 ELSE Den(cfg.ord[a], cfg.U)])
Real(a) == ~(cfg.dim = 2 /\ a = 2)
X0(p, a) == p[1 + a]
DX(p, a) == p[4 + a]
Q(p) == p[8]
Start(r, a) == cfg.cut[a][cfg.pos[r][a] + 1]

(* weights on axis a of a particle at y (in 1/U); sh: the component lies half a cell further *)
Wt(a, y, lo, hi, sh) ==
  IF Real(a) THEN Weights1(cfg.ord[a], cfg.U, IF sh THEN y - cfg.U \div 2 ELSE y, lo, hi) ELSE [i \in 0..0 |-> 1]
LoA(a, y0, y1) == IF Real(a) THEN Lo(cfg.U, y0, y1) ELSE 0
HiA(a, y0, y1) == IF Real(a) THEN Hi(cfg.U, y0, y1) ELSE 0

(* a box of nodes with the weights: [lo, hi, w] where w[a] are 1D tables; the value at a node is Term(box, i, j, k) *)
RhoBox(p) ==
  [kind |-> "prod", f |-> Q(p), lo |-> [a \in 1..3 |-> LoA(a, X0(p, a), X0(p, a))], hi |-> [a \in 1..3 |-> HiA(a, X0(p, a), X0(p, a))],
   w |-> [a \in 1..3 |-> Wt(a, X0(p, a), LoA(a, X0(p, a), X0(p, a)), HiA(a, X0(p, a), X0(p, a)), FALSE)]]
(* direct deposition: the velocity times the shape at mid step *)
DirBox(p, c) ==
  LET y(a) == X0(p, a) - DX(p, a) \div 2 IN
  [kind |-> "prod", f |-> Q(p) * DX(p, c), lo |-> [a \in 1..3 |-> LoA(a, y(a), y(a))], hi |-> [a \in 1..3 |-> HiA(a, y(a), y(a))],
   w |-> [a \in 1..3 |-> Wt(a, y(a), LoA(a, y(a), y(a)), HiA(a, y(a), y(a)), a = c /\ cfg.nodal = 0)]]
EsBox(p, c) ==
  LET o(a) == X0(p, a) - DX(p, a)
      lo(a) == LoA(a, X0(p, a), o(a))
      hi(a) == HiA(a, X0(p, a), o(a))
      s0 == [a \in 1..3 |-> Wt(a, o(a), lo(a), hi(a), FALSE)]
      s1 == [a \in 1..3 |-> Wt(a, X0(p, a), lo(a), hi(a), FALSE)]
      ds == [a \in 1..3 |-> [i \in lo(a)..hi(a) |-> s1[a][i] - s0[a][i]]]
      cum == [a \in 1..3 |-> CumTab(s0[a], s1[a], lo(a), hi(a))]
  IN [kind |-> IF cfg.dim = 3 THEN "es3" ELSE IF c = 2 THEN "es2y" ELSE "es2", c |-> c,
      f |-> IF cfg.dim = 3 THEN -Q(p) ELSE IF c = 2 THEN Q(p) * DX(p, 2) ELSE -Q(p) * cfg.U,
      lo |-> [a \in 1..3 |-> lo(a)], hi |-> [a \in 1..3 |-> hi(a)], s0 |-> s0, ds |-> ds, cum |-> cum]
Oth(c) == CASE c = 1 -> <<2, 3>> [] c = 2 -> <<1, 3>> [] c = 3 -> <<1, 2>>
Term(b, n) ==
  IF \E a \in 1..3 : Real(a) /\ (n[a] < b.lo[a] \/ n[a] > b.hi[a]) THEN 0
  ELSE CASE b.kind = "prod" -> LET v == b.w[1][n[1]] IN IF v = 0 THEN 0 ELSE b.f * v * (IF cfg.dim = 2 THEN 1 ELSE b.w[2][n[2]]) * b.w[3][n[3]]
         [] b.kind = "es3" -> LET v == b.cum[b.c][n[b.c]] e == Oth(b.c) IN
              IF v = 0 THEN 0 ELSE b.f * v * Pair(b.s0[e[1]][n[e[1]]], b.ds[e[1]][n[e[1]]], b.s0[e[2]][n[e[2]]], b.ds[e[2]][n[e[2]]])
         [] b.kind = "es2" -> LET v == b.cum[b.c][n[b.c]] e == 4 - b.c IN IF v = 0 THEN 0 ELSE b.f * v * Single(b.s0[e][n[e]], b.ds[e][n[e]])
         [] b.kind = "es2y" -> b.f * Pair(b.s0[1][n[1]], b.ds[1][n[1]], b.s0[3][n[3]], b.ds[3][n[3]])

(* what every process has deposited, guard cells included, is the sum over its own particles *)
Deposited(arr, Box(_)) ==
  \A r \in 1..NR :
    LET B == [m \in 1..Len(pt[r]) |-> Box(pt[r][m])]
        T == TLCEval(B)
    IN \A i \in Stored(r, 1, cfg.gj) : \A j \in Stored(r, 2, cfg.gj) : \A k \in Stored(r, 3, cfg.gj) :
         LET n == <<i + Start(r, 1), IF cfg.dim = 2 THEN 0 ELSE j + Start(r, 2), k + Start(r, 3)>>
         IN arr[r][Flat(r, cfg.gj, i, j, k)] = FoldSet(LAMBDA m, s : s + Term(T[m], n), 0, 1..Len(T))

JDepOK == IF E.alg = "dir" THEN \A c \in 1..3 : Deposited(E.f["j"][c], LAMBDA p : DirBox(p, c))
          ELSE \A c \in 1..3 : Deposited(E.f["j"][c], LAMBDA p : EsBox(p, c))
RDepOK == Deposited(E.f["r"][1], RhoBox)

(* charge conservation at every node a process owns, between the charge density remembered and the present one *)
ContOK == \A r \in 1..NR : \A i \in 0..LenOf(r, 1) : \A j \in Own(r, 2) : \A k \in 0..LenOf(r, 3) :
  LET f == Flat(r, cfg.gj, i, j, k)
      J(c, di, dj, dk) == st["j"][c][r][Flat(r, cfg.gj, i - di, j - dj, k - dk)]
      div == (J(1, 0, 0, 0) - J(1, 1, 0, 0)) + (J(3, 0, 0, 0) - J(3, 0, 0, 1)) + (IF cfg.dim = 2 THEN 0 ELSE J(2, 0, 0, 0) - J(2, 0, 1, 0))
  IN Abs(st["r"][1][r][f] - st["k"][1][r][f] + div) <= cfg.ctol

(* gathering: at each particle, every component is the average of the field with the weights of the particle's shape *)
GDen(a) == IF Real(a) THEN Den(cfg.ord[a], cfg.U) ELSE 1
GW(a, y, lo, hi, par) ==   \* par: the component is staggered along a (on a staggered grid)
  IF ~Real(a) THEN [i \in 0..0 |-> 1]
  ELSE LET y1 == IF par /\ cfg.nodal = 0 THEN y - cfg.U \div 2 ELSE y IN
       IF par /\ cfg.lowv = 1 THEN LET m == Den(cfg.ord[a], cfg.U) \div Den(cfg.ord[a] - 1, cfg.U)
                                       w == Weights1(cfg.ord[a] - 1, cfg.U, y1, lo, hi)
                                   IN [i \in lo..hi |-> m * w[i]]
       ELSE Weights1(cfg.ord[a], cfg.U, y1, lo, hi)
GatherAt(grp, c, r, p) ==
  LET lo == [a \in 1..3 |-> LoA(a, X0(p, a), X0(p, a))]
      hi == [a \in 1..3 |-> HiA(a, X0(p, a), X0(p, a))]
      w == [a \in 1..3 |-> GW(a, X0(p, a), lo[a], hi[a], IF grp = "e" THEN a = c ELSE a # c)]
      S(a) == {i \in lo[a]..hi[a] : w[a][i] # 0}
      at(i, j, k) == st[grp][c][r][Flat(r, cfg.g, i - Start(r, 1), j - Start(r, 2), k - Start(r, 3))]
  IN FoldSet(LAMBDA i, s1 : s1 + w[1][i] * FoldSet(LAMBDA k, s2 : s2 + w[3][k] * FoldSet(LAMBDA j, s3 : s3 + w[2][j] * at(i, j, k), 0, S(2)), 0, S(3)), 0, S(1))
GatherOK == \A r \in 1..NR : Len(E.p[r]) = Len(pt[r]) /\ \A m \in 1..Len(pt[r]) :
  LET p == pt[r][m] q == E.p[r][m] IN
    /\ q[1] = p[1]
    /\ IF p[15] = 1 THEN \A c \in 1..3 : q[8 + c] = GatherAt("e", c, r, p) /\ q[11 + c] = GatherAt("b", c, r, p)
       ELSE \A c \in 1..6 : q[8 + c] = p[8 + c]

Begin2 == Begin /\ pt' = <<>>
Part == Is("part") /\ pt' = E.p /\ UNCHANGED <<cfg, st, sg>>
JDep == Is("jdep") /\ TRUE = (JDepOK /\ Others(Grp("j", 3))) /\ st' = E.f @@ st /\ sg' = E.sig /\ UNCHANGED <<cfg, pt>>
RDep == Is("rdep") /\ TRUE = (RDepOK /\ Others(Grp("r", 1))) /\ st' = E.f @@ st /\ sg' = E.sig /\ UNCHANGED <<cfg, pt>>
Same == Is("same") /\ TRUE = (E.sig = sg) /\ UNCHANGED <<cfg, st, sg, pt>>
Keep == Is("keep") /\ st' = ("k" :> st["r"]) @@ st /\ UNCHANGED <<cfg, sg, pt>>
Cont == Is("cont") /\ TRUE = ContOK /\ UNCHANGED <<cfg, st, sg, pt>>
Gath == Is("gath") /\ TRUE = GatherOK /\ UNCHANGED <<cfg, st, sg, pt>>
PicNext == Begin2 \/ ((Coef \/ Set \/ Call) /\ UNCHANGED pt) \/ Part \/ JDep \/ RDep \/ Keep \/ Cont \/ Gath \/ Same
PicSpec == TraceInit /\ pt = <<>> /\ [][PicNext]_pvars
=============================================================================
