------------------------------ MODULE TraceField ------------------------------
(* Checks guard exchanges, guard summations and Maxwell updates recorded from the real library.
   Events: cfg; set (arrays given by the scenario); ebcs, bbcs, jbcs, rbcs, merge, pushb, pushe: one call of the library, with the
   arrays of the fields it changes (E.f: group -> components -> ranks -> flat array) and signatures of all fields
   (E.sig: group -> components -> ranks).  Groups: e b j r o (old rho) s (split fields).  Units: see pxh_field. *)
EXTENDS GridOps, MaxwellOps, TraceIO

VARIABLES cfg, st, sg, l
tvars == <<cfg, st, sg, l>>
E == Trace[l]
Is(v) == l <= Len(Trace) /\ E.ev = v /\ l' = l + 1
TraceInit == l = 1 /\ cfg = <<>> /\ st = <<>> /\ sg = <<>>

(* ---- layout ---- *)
Guard(grp) == IF grp \in {"j", "r", "o"} THEN cfg.gj ELSE cfg.g
NR == Len(cfg.pos)
LenOf(r, a) == ChunkLen(cfg.cut[a], cfg.pos[r][a])
Stored(r, a, g) == IF cfg.dim = 2 /\ a = 2 THEN 0..0 ELSE -g[a]..(LenOf(r, a) + g[a])
W(r, a, g) == IF cfg.dim = 2 /\ a = 2 THEN 1 ELSE LenOf(r, a) + 1 + 2 * g[a]
Flat(r, g, i, j, k) ==
  1 + (i + g[1]) + W(r, 1, g) * ((IF cfg.dim = 2 THEN 0 ELSE j + g[2]) + W(r, 2, g) * (k + g[3]))
RankAt == TLCEval([c \in {cfg.pos[r] : r \in 1..NR} |-> CHOOSE r \in 1..NR : cfg.pos[r] = c])
Positions(g) == {<<a, c, i>> \in UNION {UNION {{<<a, c, i>> : i \in -g[a]..(ChunkLen(cfg.cut[a], c) + g[a])} : c \in Chunks(cfg.cut[a])} : a \in 1..3} : TRUE}

(* the owner of what is stored at index i of chunk c: on an axis that is not periodic, the last chunk owns the last node and
   what lies beyond the domain stays where it is *)
Owner1(a, c, i) ==
  LET cut == cfg.cut[a]
      n == cut[c + 1] + i
  IN IF cfg.per[a] = 1 THEN Home(cut, n % Total(cut))
     ELSE IF n < 0 \/ n >= Total(cut) THEN <<c, i>> ELSE Home(cut, n)
OwnerTab(g) == TLCEval([p \in Positions(g) |-> Owner1(p[1], p[2], p[3])])
Node1(a, c, i) == LET n == cfg.cut[a][c + 1] + i IN IF cfg.per[a] = 1 THEN n % Total(cfg.cut[a]) ELSE n
CopyTab(g) ==
  LET ps == Positions(g)
      ns == {<<p[1], Node1(p[1], p[2], p[3])>> : p \in ps}
  IN TLCEval([m \in ns |-> {<<p[2], p[3]>> : p \in {q \in ps : q[1] = m[1] /\ Node1(q[1], q[2], q[3]) = m[2]}}])

(* ---- exchange ---- *)
SyncedTo(new, old, g) ==
  LET T == OwnerTab(g) R == RankAt IN
  \A r \in 1..NR : \A i \in Stored(r, 1, g) : \A j \in Stored(r, 2, g) : \A k \in Stored(r, 3, g) :
    LET p == cfg.pos[r]
        o1 == T[<<1, p[1], i>>]
        o2 == T[<<2, p[2], j>>]
        o3 == T[<<3, p[3], k>>]
        q == R[<<o1[1], o2[1], o3[1]>>]
    IN new[r][Flat(r, g, i, j, k)] = old[q][Flat(q, g, o1[2], o2[2], o3[2])]

(* ---- summation ---- *)
SummedTo(new, old, g) ==
  LET C == CopyTab(g)
      R == RankAt
      NA(a) == {m[2] : m \in {x \in DOMAIN C : x[1] = a}}
      YC(n) == IF cfg.dim = 2 THEN {<<0, 0>>} ELSE C[<<2, n>>]
      YN == IF cfg.dim = 2 THEN {0} ELSE NA(2)
      Sum3(n1, n2, n3) ==
        FoldSet(LAMBDA p, s1 : s1 + FoldSet(LAMBDA q, s2 : s2 + FoldSet(LAMBDA t, s3 :
            s3 + LET r == R[<<p[1], q[1], t[1]>>] IN old[r][Flat(r, g, p[2], q[2], t[2])], 0, C[<<3, n3>>]), 0, YC(n2)), 0, C[<<1, n1>>])
      tot == TLCEval([n \in NA(1) \X YN \X NA(3) |-> Sum3(n[1], n[2], n[3])])
  IN \A r \in 1..NR : \A i \in Stored(r, 1, g) : \A j \in Stored(r, 2, g) : \A k \in Stored(r, 3, g) :
       LET p == cfg.pos[r] IN
       new[r][Flat(r, g, i, j, k)] = tot[<<Node1(1, p[1], i), IF cfg.dim = 2 THEN 0 ELSE Node1(2, p[2], j), Node1(3, p[3], k)>>]

(* ---- Maxwell ---- *)
Own(r, a) == IF cfg.dim = 2 /\ a = 2 THEN 0..0 ELSE 0..LenOf(r, a)
TAxs == IF cfg.dim = 2 THEN {1, 3} ELSE {1, 2, 3}
Val(grp, r, a, x) == st[grp][a][r][Flat(r, Guard(grp), x[1], x[2], x[3])]
(* q * new = q * old plus integer terms, up to the rounding of the logged values *)
PushOK(grp, new) ==
  \A r \in 1..NR :
    LET FE(a, x) == cfg.q * Val("e", r, a, x)
        FB(a, x) == cfg.q * Val("b", r, a, x)
        RE(a, x) == Val("e", r, a, x)
        RB(a, x) == Val("b", r, a, x)
        FJ(a, x) == cfg.q * Val("j", r, a, x)
    IN \A a \in 1..3 : \A i \in Own(r, 1) : \A j \in Own(r, 2) : \A k \in Own(r, 3) :
         LET x == <<i, j, k>>
             want == IF grp = "b" THEN PushedB(FB, RE, a, x, cfg.stencil, cfg.w, cfg.nodal = 1, TAxs)
                     ELSE PushedE(FE, RB, FJ, a, x, cfg.stencil, cfg.w, cfg.nodal = 1, TAxs)
             got == cfg.q * new[a][r][Flat(r, Guard(grp), i, j, k)]
         IN got - want <= cfg.tol /\ want - got <= cfg.tol

(* ---- split fields: exy exz eyx eyz ezx ezy, then the same of b ---- *)
MergedTo(new, split, k0) ==
  \A a \in 1..3 : \A r \in 1..NR : \A i \in DOMAIN new[a][r] : new[a][r][i] = split[k0 + 2 * a - 1][r][i] + split[k0 + 2 * a][r][i]

(* ---- events ---- *)
Others(touched) == \A grp \in DOMAIN E.sig : \A c \in DOMAIN E.sig[grp] : <<grp, c>> \in touched \/ E.sig[grp][c] = sg[grp][c]
Grp(grp, n) == {<<grp, c>> : c \in 1..n}
Sync(grp, cs) == \A c \in cs : SyncedTo(E.f[grp][c], st[grp][c], Guard(grp))
Check(v) ==
  CASE v = "ebcs" -> IF cfg.abs = 0 THEN Sync("e", 1..3) /\ Others(Grp("e", 3))
                     ELSE Sync("s", 1..6) /\ E.f["s"] = SubSeq(E.f["s"], 1, 6) \o SubSeq(st["s"], 7, 12)
                          /\ MergedTo(E.f["e"], E.f["s"], 0) /\ Others(Grp("e", 3) \union Grp("s", 6))
    [] v = "bbcs" -> IF cfg.abs = 0 THEN Sync("b", 1..3) /\ Others(Grp("b", 3))
                     ELSE Sync("s", 7..12) /\ E.f["s"] = SubSeq(st["s"], 1, 6) \o SubSeq(E.f["s"], 7, 12)
                          /\ MergedTo(E.f["b"], E.f["s"], 6) /\ Others(Grp("b", 3) \union {<<"s", c>> : c \in 7..12})
    [] v = "jbcs" -> (\A c \in 1..3 : SummedTo(E.f["j"][c], st["j"][c], cfg.gj)) /\ Others(Grp("j", 3))
    [] v = "rbcs" -> SummedTo(E.f["r"][1], st["r"][1], cfg.gj) /\ Others(Grp("r", 1))
    [] v = "merge" -> MergedTo(E.f["e"], st["s"], 0) /\ MergedTo(E.f["b"], st["s"], 6) /\ Others(Grp("e", 3) \union Grp("b", 3))
    [] v = "pushb" -> PushOK("b", E.f["b"]) /\ Others(Grp("b", 3))
    [] v = "pushe" -> PushOK("e", E.f["e"]) /\ Others(Grp("e", 3))
    [] OTHER -> FALSE

(* coefficients of the derivative to a given order: a formula any order obeys, SUM (2i-1) c_i = 1 and the higher moments vanish
   (staggered), SUM 2 i c_i = 1 (nodal); here solved, as fractions <<numerator, denominator>> *)
Weights == [x \in {<<2, 0>>} |-> << <<1, 1>> >>] @@ [x \in {<<4, 0>>} |-> << <<9, 8>>, <<-1, 24>> >>]
  @@ [x \in {<<6, 0>>} |-> << <<75, 64>>, <<-25, 384>>, <<3, 640>> >>]
  @@ [x \in {<<8, 0>>} |-> << <<1225, 1024>>, <<-245, 3072>>, <<49, 5120>>, <<-5, 7168>> >>]
  @@ [x \in {<<2, 1>>} |-> << <<1, 2>> >>] @@ [x \in {<<4, 1>>} |-> << <<2, 3>>, <<-1, 12>> >>]
  @@ [x \in {<<6, 1>>} |-> << <<3, 4>>, <<-3, 20>>, <<1, 60>> >>]
  @@ [x \in {<<8, 1>>} |-> << <<4, 5>>, <<-1, 5>>, <<4, 105>>, <<-1, 280>> >>]
CoefOK(x) == LET w == Weights[<<x.o, x.nod>>] IN
  Len(x.c) = Len(w) /\ \A i \in 1..Len(w) : Abs(x.c[i] - ((w[i][1] * 1000) \div w[i][2]) * 10000 - ((((w[i][1] * 1000) % w[i][2]) * 10000) \div w[i][2])) <= 2
Coef == Is("coef") /\ TRUE = (Len(E.list) = 8 /\ \A i \in 1..8 : CoefOK(E.list[i])) /\ UNCHANGED <<cfg, st, sg>>

Begin == Is("cfg") /\ cfg' = E /\ st' = <<>> /\ sg' = <<>>
Set == Is("set") /\ st' = E.f @@ st /\ sg' = E.sig /\ UNCHANGED cfg
Call == \E v \in {"ebcs", "bbcs", "jbcs", "rbcs", "merge", "pushb", "pushe"} :
          Is(v) /\ TRUE = Check(v) /\ st' = E.f @@ st /\ sg' = E.sig /\ UNCHANGED cfg
TraceNext == Begin \/ Coef \/ Set \/ Call
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
