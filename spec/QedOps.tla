------------------------------- MODULE QedOps -------------------------------
(* What the QED library computes, as functions of its inputs: units, the quantum parameters chi, interpolation in lookup
   tables, Breit-Wheeler and quantum synchrotron rates, evolution of optical depths, the products of an event, and the
   Schwinger effect.  Numbers are the strings of F64.  Results come as intervals <<lo, hi>> wherever rounding in the
   implementation (relative precision u.eps) is amplified. *)
EXTENDS F64, Integers, Sequences, FiniteSets, SequencesExt

\* ---------------------------------------------------------------- units
Pi == "3.141592653589793"
ME == "9.10938356e-31"
QE == "1.6021766208e-19"
CL == "299792458"
HB == "1.054571800e-34"
EPS0 == "8.854187817e-12"
ALPHA == "0.0072973525664"
TwoPi == FMul("2", Pi)
CL2 == FMul(CL, CL)
TauE == FDiv(FMul(QE, QE), FMul(FMul(FMul("4", Pi), FMul(EPS0, ME)), FMul(CL2, CL)))         \* classical radius / c
EsSI == FDiv(FMul(FMul(ME, ME), FMul(CL2, CL)), FMul(QE, HB))
Unit == [n \in BOOLEAN |->
  LET bw == FDiv(FMul(ALPHA, FMul(ME, CL2)), HB)
      qs == FDiv(FMul(ALPHA, ALPHA), TauE)
      sw == FDiv(FMul(FMul(QE, QE), FMul(EsSI, EsSI)), FMul(FMul("4", FMul(Pi, Pi)), FMul(FMul(HB, HB), CL)))
  IN IF n
     THEN [norm |-> TRUE, c |-> "1", m |-> "1", mc |-> "1", mc2 |-> "1", es |-> FDiv(FMul(ME, CL), FMul(HB, TwoPi)),
           bw |-> FDiv(bw, FMul(TwoPi, CL)), qs |-> FDiv(qs, FMul(TwoPi, CL)),
           sw |-> FDiv(sw, FMul(FMul(FMul(TwoPi, TwoPi), FMul(TwoPi, TwoPi)), CL))]
     ELSE [norm |-> FALSE, c |-> CL, m |-> ME, mc |-> FMul(ME, CL), mc2 |-> FMul(ME, CL2), es |-> EsSI,
           bw |-> FMul(bw, FMul(ME, CL2)), qs |-> FMul(qs, FMul(ME, CL2)), sw |-> sw]]
Eps(float) == IF float THEN "1.1920928955078125e-07" ELSE "2.220446049250313e-16"
Lam(U, lam) == IF U.norm THEN lam ELSE "1"           \* in SI units lambda is ignored

\* ---------------------------------------------------------------- numbers
Min2F2(a, b) == IF a < b THEN a ELSE b
Max2F(S) == CHOOSE x \in S : \A y \in S : FLe(y, x)
Min2F(S) == CHOOSE x \in S : \A y \in S : FLe(x, y)
Times(k, e) == FMul(F(k), e)
\* r lies in the interval iv, widened by the relative tolerance t and the absolute tolerance a
InIv(r, iv, t, a) ==
  /\ FFinite(r)
  /\ FLe(FSub(FSub(iv[1], FMul(t, FAbs(iv[1]))), a), r)
  /\ FLe(r, FAdd(FAdd(iv[2], FMul(t, FAbs(iv[2]))), a))
Hull(S) == <<Min2F(S), Max2F(S)>>

\* ---------------------------------------------------------------- vectors
VAdd(a, b) == [i \in 1..3 |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..3 |-> FSub(a[i], b[i])]
VScale(s, a) == [i \in 1..3 |-> FMul(s, a[i])]
VCross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
VNorm2(a) == FDot(a, a)
\* scaled, so that the squares of SI momenta neither underflow nor overflow
VNorm(a) == LET m == FMax(FAbs(a[1]), FMax(FAbs(a[2]), FAbs(a[3])))
            IN IF FEq(m, "0") THEN "0" ELSE LET s == VScale(FDiv("1", m), a) IN FMul(m, FSqrt(FDot(s, s)))
VNear(a, b, d) == \A i \in 1..3 : FClose(a[i], b[i], d)

\* ---------------------------------------------------------------- the quantum parameter chi
FieldScale(U, e, b) == FAdd(VNorm(e), FMul(U.c, VNorm(b)))
ChiPhoton(U, p, e, b, lam) ==
  LET n == VNorm(p) IN
  IF FEq(n, "0") THEN "0" ELSE
  LET k == VScale(FDiv("1", n), p)
      perp == VSub(e, VScale(FDot(k, e), k))
      f == VAdd(perp, VCross(VScale(U.c, k), b))
  IN FDiv(FMul(VNorm(f), FDiv(n, U.mc)), FMul(U.es, Lam(U, lam)))
ChiPhotonErr(U, eps, p, e, b, lam) ==
  FMul(Times(16, eps), FDiv(FMul(FieldScale(U, e, b), FDiv(VNorm(p), U.mc)), FMul(U.es, Lam(U, lam))))
ChiPhotonIv(U, eps, p, e, b, lam) ==
  LET x == ChiPhoton(U, p, e, b, lam)
      d == FAdd(ChiPhotonErr(U, eps, p, e, b, lam), FMul(Times(8, eps), x))
  IN <<FMax("0", FSub(x, d)), FAdd(x, d)>>

\* the square of chi for a lepton: gamma^2 (E + v x B)^2 - (p.E)^2, all exact identities of the square of F.p
ChiLeptonIv(U, eps, p, e, b, lam) ==
  LET n == VNorm(p) IN
  IF FEq(n, "0") THEN <<"0", "0">> ELSE
  LET g == FDiv(n, U.mc)
      g2 == FAdd("1", FMul(g, g))
      beta == FDiv(g, FSqrt(g2))
      k == VScale(FDiv("1", n), p)
      v == VScale(beta, k)
      f == VAdd(e, VCross(VScale(U.c, v), b))
      be == FDot(v, e)
      s2 == FAbs(FSub(FMul(be, be), VNorm2(f)))
      sc == FieldScale(U, e, b)
      \* beta is computed as sqrt(1 - 1/gamma^2): its error grows for small momenta
      d2 == FMul(FMul(Times(32, eps), FAdd("1", FDiv("1", beta))), FMul(sc, sc))
      q == FDiv(FSqrt(g2), FMul(U.es, Lam(U, lam)))
  IN <<FMul(q, FSqrt(FMax("0", FSub(s2, d2)))), FMul(q, FSqrt(FAdd(s2, d2)))>>

\* ---------------------------------------------------------------- lookup tables
\* the interval of the table that holds x (the last one for the upper limit)
Bracket(c, x) ==
  LET RECURSIVE go(_, _)
      go(a, z) == IF z - a <= 1 THEN a ELSE LET m == (a + z) \div 2 IN IF FLe(c[m], x) THEN go(m, z) ELSE go(a, m)
  IN go(1, Len(c))
Lin(xl, xr, yl, yr, x) == FAdd(yl, FMul(FDiv(FSub(yr, yl), FSub(xr, xl)), FSub(x, xl)))
Interp1(c, d, x) == LET i == Bracket(c, x) IN IF FEq(x, c[i]) THEN d[i] ELSE IF FEq(x, c[i+1]) THEN d[i+1] ELSE Lin(c[i], c[i+1], d[i], d[i+1], x)
\* what rounding can do to the result: the position within the table is known to a relative eps, the values too
Interp1Err(c, d, x, eps) ==
  LET i == Bracket(c, x)
      n == Len(c)
      S == {j \in (i-1)..(i+1) : j >= 1 /\ j < n}
      sl == Max2F({FAbs(FDiv(FSub(d[j+1], d[j]), FSub(c[j+1], c[j]))) : j \in S})
      mx == Max2F({FAbs(x), FAbs(c[1]), FAbs(c[n])})
      my == Max2F({FAbs(d[j]) : j \in S} \cup {FAbs(d[j+1]) : j \in S})
  IN FMul(Times(8, eps), FAdd(my, FMul(sl, mx)))

At(d, m, i, j) == d[(i - 1) * m + j]                 \* row major, 1-based
Column(d, n, m, j) == [i \in 1..n |-> At(d, m, i, j)]
Interp2(c1, c2, d, x, y) ==
  LET m == Len(c2)
      i == Bracket(c1, x)
      j == Bracket(c2, y)
      u == FDiv(FSub(x, c1[i]), FSub(c1[i+1], c1[i]))
      v == FDiv(FSub(y, c2[j]), FSub(c2[j+1], c2[j]))
      u1 == FSub("1", u)
      v1 == FSub("1", v)
  IN FSum(<<FMul(FMul(u1, v1), At(d, m, i, j)), FMul(FMul(u1, v), At(d, m, i, j+1)), FMul(FMul(u, v1), At(d, m, i+1, j)), FMul(FMul(u, v), At(d, m, i+1, j+1))>>)
Interp2Err(c1, c2, d, x, y, eps) ==
  LET m == Len(c2)
      n == Len(c1)
      i == Bracket(c1, x)
      j == Bracket(c2, y)
      I == {a \in (i-1)..(i+2) : a >= 1 /\ a <= n}
      J == {a \in (j-1)..(j+2) : a >= 1 /\ a <= m}
      mz == Max2F({FAbs(At(d, m, a, q)) : a \in I, q \in J})
      ax == Max2F({FDiv(Max2F({FAbs(x), FAbs(c1[1]), FAbs(c1[n])}), FSub(c1[a+1], c1[a])) : a \in {a \in I : a + 1 \in I}})
      ay == Max2F({FDiv(Max2F({FAbs(y), FAbs(c2[1]), FAbs(c2[m])}), FSub(c2[a+1], c2[a])) : a \in {a \in J : a + 1 \in J}})
  IN FMul(FMul(Times(16, eps), mz), FAdd("1", FAdd(ax, ay)))

\* Interpolation in a column whose values are logarithms, for x known to +-dx: an interval of the exponentials.  A node
\* can hold -inf (a probability of zero): then so does all the interval next to it, its other end excepted.
Expo(c, d, x) ==
  IF FLe(x, c[1]) THEN FExp(d[1]) ELSE IF FLe(c[Len(c)], x) THEN FExp(d[Len(d)]) ELSE
  LET i == Bracket(c, x) IN
  IF FEq(x, c[i]) THEN FExp(d[i])
  ELSE IF ~FFinite(d[i]) \/ ~FFinite(d[i+1]) THEN (IF FEq(d[i], d[i+1]) THEN FExp(d[i]) ELSE "0")
  ELSE FExp(Lin(c[i], c[i+1], d[i], d[i+1], x))
ExpoIv(c, d, lo, hi) ==
  Hull({Expo(c, d, lo), Expo(c, d, hi)} \cup {FExp(d[i]) : i \in {i \in 1..Len(c) : FLe(lo, c[i]) /\ FLe(c[i], hi)}})
\* relative error of the exponential of an interpolated logarithm
ExpoTol(d, eps) ==
  LET S == {FAbs(d[i]) : i \in {i \in DOMAIN d : FFinite(d[i])}}
  IN FMul(Times(8, eps), FAdd("2", IF S = {} THEN "0" ELSE Max2F(S)))
\* an interval of positive numbers -> an interval of their logarithms, with the error of log
LogIv(iv, eps, c) ==
  LET m == FAdd(FAbs(c[1]), FAbs(c[Len(c)]))
      e == FMul(Times(4, eps), FAdd("1", m))
  IN <<FSub(FLog(iv[1]), e), FAdd(FLog(iv[2]), e)>>
Clamp(x, a, b) == FMax(a, FMin(x, b))

\* ---------------------------------------------------------------- rates
BWa == "0.16"
BWb == Q(4, 3)
Gamma13 == "2.678938534707747"
BWLow(chi) == FMul(FDiv(FMul(Pi, BWa), FMul("2", BWb)), FMul(FMul(chi, chi), FExp(FDiv(FMul("-2", BWb), chi))))
BWHigh(chi) == LET g == FDiv(Gamma13, "2") IN FMul(FMul(BWa, chi), FMul(FMul(g, g), FPow(FDiv(FMul("2", chi), BWb), Q(2, 3))))
\* the rate function for chi in an interval: the regimes that the interval meets
BWTIv(t1, ct, iv, eps) ==
  LET lo == {BWLow(x) : x \in {FMin(y, ct.tmin) : y \in {iv[1], iv[2]}}}
      hi == {BWHigh(x) : x \in {FMax(y, ct.tmax) : y \in {iv[1], iv[2]}}}
      l == LogIv(<<Clamp(iv[1], ct.tmin, ct.tmax), Clamp(iv[2], ct.tmin, ct.tmax)>>, eps, t1.c)
      S == (IF FLe(iv[1], ct.tmin) THEN lo ELSE {})
           \cup (IF FLe(ct.tmax, iv[2]) THEN hi ELSE {})
           \cup (IF FLt(ct.tmin, iv[2]) /\ FLt(iv[1], ct.tmax) THEN {ExpoIv(t1.c, t1.d, l[1], l[2])[i] : i \in 1..2} ELSE {})
  IN Hull(S)
\* the exponent of the low-chi form amplifies rounding as well
BWTTol(t1, ct, iv, eps) ==
  FAdd(IF FLt(ct.tmin, iv[2]) /\ FLt(iv[1], ct.tmax) THEN ExpoTol(t1.d, eps) ELSE "0",
       FMul(Times(16, eps), FAdd("1", FDiv(FMul("2", BWb), iv[1]))))
BWRate(U, lam, en, chiIv, TIv) == 
  LET k == FDiv(FMul(U.bw, Lam(U, lam)), en) IN <<FDiv(FMul(k, TIv[1]), chiIv[2]), FDiv(FMul(k, TIv[2]), chiIv[1])>>
QSKIv(t1, ct, iv, eps) ==
  LET l == LogIv(<<Clamp(iv[1], ct.tmin, ct.tmax), Clamp(iv[2], ct.tmin, ct.tmax)>>, eps, t1.c)
  IN ExpoIv(t1.c, t1.d, l[1], l[2])
QSRate(U, lam, en, KIv) == LET k == FDiv(FMul(U.qs, Lam(U, lam)), en) IN <<FMul(k, KIv[1]), FMul(k, KIv[2])>>

\* the rate an engine uses for chi in chiIv, from its table t1 or, without one, exact (to the accuracy of the integration)
\* (the adaptive quadratures of the pair rate in single precision are off by up to 4e-3 here and there)
IntegTol(k, float) == IF ~float THEN "1e-4" ELSE IF k = "bw" THEN "1e-2" ELSE "2e-3"
RateIv(k, U, ct, t1, lam, en, chiIv, eps) ==
  IF k = "bw" THEN BWRate(U, lam, en, chiIv, BWTIv(t1, ct, chiIv, eps)) ELSE QSRate(U, lam, en, QSKIv(t1, ct, chiIv, eps))
RateTol(k, ct, t1, chiIv, eps) == IF k = "bw" THEN BWTTol(t1, ct, chiIv, eps) ELSE ExpoTol(t1.d, eps)
ExactRateIv(k, U, lam, en, chiIv) ==
  IF k = "bw" THEN BWRate(U, lam, en, chiIv, <<BWT(chiIv[1]), BWT(chiIv[2])>>) ELSE QSRate(U, lam, en, <<QSK(chiIv[1]), QSK(chiIv[2])>>)
ChiIv(k, U, eps, p, e, b, lam) == IF k = "bw" THEN ChiPhotonIv(U, eps, p, e, b, lam) ELSE ChiLeptonIv(U, eps, p, e, b, lam)

\* ---------------------------------------------------------------- evolution of the optical depth
\* o: [nopt, has, edt]; rate interval r with relative tolerance t
EvolveOK(o, opt, dt, r, t, eps) ==
  LET lo == FSub(opt, FMul(FMul(r[2], FAdd("1", t)), dt))
      hi == FSub(opt, FMul(FMul(r[1], FSub("1", t)), dt))
      a == FMul(Times(4, eps), FAdd(FAbs(opt), FMul(r[2], dt)))
  IN /\ InIv(o.nopt, <<lo, hi>>, "0", a)
     /\ o.has <=> FLt(o.nopt, "0")
     /\ IF o.has
        \* the optical depth vanishes at opt/rate, which lies within the step
        THEN /\ InIv(o.edt, <<FDiv(opt, r[2]), FDiv(opt, r[1])>>, "0", FMul(FAdd(FMul("2", t), Times(8, eps)), dt))
             /\ FLe(FMul("-1", FMul(Times(8, eps), dt)), o.edt) /\ FLe(o.edt, FMul(FAdd("1", Times(4, eps)), dt))
        ELSE FEq(o.edt, "0")
\* a rate at the edge of the range of the type: at most r
EvolveLow(o, opt, dt, r, eps) ==
  LET a == FMul(Times(4, eps), FAdd(FAbs(opt), FMul(r, dt))) IN
  /\ InIv(o.nopt, <<FSub(opt, FMul(r, dt)), opt>>, "0", a)
  /\ o.has <=> FLt(o.nopt, "0")
  /\ IF o.has THEN FLe(FMul("-1", FMul(Times(8, eps), dt)), o.edt) /\ FLe(o.edt, FMul(FAdd("1", Times(4, eps)), dt)) ELSE FEq(o.edt, "0")
EvolveSkip(o, opt) == FEq(o.nopt, opt) /\ ~o.has /\ FEq(o.edt, "0")

\* ---------------------------------------------------------------- the products of an event
Gamma(U, p) == LET g == FDiv(VNorm(p), U.mc) IN FSqrt(FAdd("1", FMul(g, g)))
Along(q, p, eps) ==   \* q is a non-negative multiple of p
  LET nq == VNorm(q)
      np == VNorm(p)
  IN /\ \A i \in 1..3 : FFinite(q[i])
     /\ VNear(q, VScale(FDiv(nq, np), p), FMul(Times(8, eps), nq))
\* the column of probabilities (or fractions) j of a table of logarithms, at a position within l, as intervals
ColIv(t2, l, j) == ExpoIv(t2.c1, Column(t2.d, Len(t2.c1), Len(t2.c2), j), l[1], l[2])
TabPos(t2, ct, chi, eps) == LogIv(<<Clamp(chi[1], ct.pmin, ct.pmax), Clamp(chi[2], ct.pmin, ct.pmax)>>, eps, t2.c1)
\* kinetic energy / mc^2 of momentum q
Kin(U, q) == LET g == FDiv(VNorm(q), U.mc) IN FDiv(FMul(g, g), FAdd("1", FSqrt(FAdd("1", FMul(g, g)))))

\* One Breit-Wheeler pair made with the random number u: electron and positron <<px, py, pz, weight>>.  They fly along
\* the photon, share its energy, and the lesser energy is the quantile of u (of u - 1/2, for the positron, from 1/2 on).
BWPairOK(U, eps, p, w, n, chi, t2, ct, u, ele, pos) ==
  LET g == FDiv(VNorm(p), U.mc)
      free == FSub(g, "2")
      inv == FLe("0.5", u)
      pr == IF inv THEN FSub(u, "0.5") ELSE u
      q1 == IF inv THEN pos ELSE ele
      q2 == IF inv THEN ele ELSE pos
      f1 == FDiv(Kin(U, SubSeq(q1, 1, 3)), free)
      f2 == FDiv(Kin(U, SubSeq(q2, 1, 3)), free)
      df == FMul(Times(16, eps), FDiv(g, free))
      m == Len(t2.c2)
      l == TabPos(t2, ct, chi, eps)
      a == Clamp(FSub(f1, df), "0", "0.5")
      z == Clamp(FAdd(f1, df), "0", "0.5")
      ja == Min2F2(Bracket(t2.c2, a), m - 1)
      jz == Min2F2(Bracket(t2.c2, z), m - 1)
      col(j) == IF j = 1 THEN <<"0", "0">> ELSE ColIv(t2, l, j)
      lo == Lin(t2.c2[ja], t2.c2[ja+1], col(ja)[1], col(ja+1)[1], a)
      hi == Lin(t2.c2[jz], t2.c2[jz+1], col(jz)[2], col(jz+1)[2], z)
      t == ExpoTol(t2.d, eps)
  IN /\ Along(SubSeq(q1, 1, 3), p, eps) /\ Along(SubSeq(q2, 1, 3), p, eps)
     /\ FClose(FAdd(f1, f2), "1", FMul("2", df))                                  \* energy
     /\ FLe(f1, FAdd("0.5", FAdd(df, t)))
     /\ InIv(pr, <<lo, hi>>, t, Times(4, eps))
     /\ FNear(ele[4], FDiv(w, F(n)), Times(4, eps)) /\ FNear(pos[4], FDiv(w, F(n)), Times(4, eps))

\* One photon emitted with the random number u: <<px, py, pz, weight>>; its energy is the fraction of the kinetic energy that the
\* table gives for the probability u
QSPhotonOK(U, eps, p, w, n, chi, t2, ct, u, ph) ==
  LET k == Kin(U, p)
      f == FDiv(FDiv(VNorm(SubSeq(ph, 1, 3)), U.mc), k)
      m == Len(t2.c2)
      j == Min2F2(Bracket(t2.c2, u), m - 1)
      l == TabPos(t2, ct, chi, eps)
      A == ColIv(t2, l, j)
      B == ColIv(t2, l, j + 1)
      lo == Lin(t2.c2[j], t2.c2[j+1], A[1], B[1], u)
      hi == Lin(t2.c2[j], t2.c2[j+1], A[2], B[2], u)
      t == FAdd(ExpoTol(t2.d, eps), FMul(Times(16, eps), FAdd("1", FDiv("1", k))))
  IN /\ Along(SubSeq(ph, 1, 3), p, eps)
     /\ InIv(f, <<lo, hi>>, t, FMul(Times(8 * m, eps), B[2]))
     /\ FNear(ph[4], FDiv(w, F(n)), Times(4, eps))
\* the recoil of the particle: minus the mean momentum of the n photons of one emission
RecoilOK(eps, p, q, n, ph) ==
  LET R == [i \in 1..3 |-> FSub(p[i], FDiv(FSum([k \in 1..n |-> ph[k][i]]), F(n)))]
  IN VNear(q, R, FMul(Times(4 * (n + 2), eps), VNorm(p)))

\* ---------------------------------------------------------------- the Schwinger effect
\* rate per unit time and volume, from the squares of the invariants eps and eta (in units of the critical field)
SwRate(U, lam, e2, h2) ==
  IF FLe(e2, "0") THEN "0" ELSE
  LET a == FSqrt(e2)
      h == IF FLe(h2, "0") THEN "0" ELSE FSqrt(h2)
      x == FDiv(FMul(Pi, h), a)
      th == IF FLt(x, "1e-4") THEN FMul(FDiv(FMul(a, a), Pi), FAdd("1", FDiv(FMul(x, x), "3"))) ELSE FDiv(FMul(a, h), FTanh(x))    \* eps eta / tanh(pi eta / eps)
      lm == Lam(U, lam)
      l4 == FMul(FMul(lm, lm), FMul(lm, lm))
  IN FMul(FMul(U.sw, l4), FMul(th, FExp(FDiv(FNeg(Pi), a))))
SwIv(U, eps, e, b, lam) ==
  LET es == FMul(U.es, Lam(U, lam))
      es2 == FMul(es, es)
      E2 == VNorm2(e)
      B2 == FMul(FMul(U.c, U.c), VNorm2(b))
      ff == FDiv(FSub(E2, B2), FMul("2", es2))
      gg == FDiv(FMul(U.c, FDot(e, b)), es2)
      inner == FSqrt(FAdd(FMul(ff, ff), FMul(gg, gg)))
      d == FMul(Times(8, eps), FDiv(FAdd(E2, B2), es2))
      \* the small one of the two from the product of both, |gg|, without cancellation
      e2 == IF FLt(ff, "0") /\ ~FEq(inner, ff) THEN FDiv(FMul(gg, gg), FSub(inner, ff)) ELSE FAdd(inner, ff)
      h2 == IF FLt("0", ff) THEN FDiv(FMul(gg, gg), FAdd(inner, ff)) ELSE FSub(inner, ff)
  IN <<SwRate(U, lam, FSub(e2, d), FSub(h2, d)), SwRate(U, lam, FAdd(e2, d), FAdd(h2, d))>>
SwTol(eps) == Times(64, eps)
\* rates whose exponential factor leaves the range of the type
SwLow(U, float, lam) == LET lm == Lam(U, lam) IN FMul(FMul(U.sw, FMul(FMul(lm, lm), FMul(lm, lm))), IF float THEN "1e-37" ELSE "1e-306")
\* k is the quantile u of the Poisson distribution with mean m
PoissonOK(k, m, u, a) == /\ k = 0 \/ FLe(PoisCdf(k - 1, m), FAdd(u, a))
                         /\ FLe(FSub(u, a), PoisCdf(k, m))
PoisTol(k, m, eps) == FMul(Times(4, eps), FAdd(F(k + 8), m))

\* ---------------------------------------------------------------- vectors of points
LinPt(a, b, n, i) == FAdd(a, FMul(Q(i, n - 1), FSub(b, a)))
LogPt(a, b, n, i) == FMul(a, FPow(FDiv(b, a), Q(i, n - 1)))
SpacedOK(kind, a, b, n, v, eps) ==
  CASE kind = "lin" ->
         IF FLe(b, a) \/ n < 2 THEN v = <<>>
         ELSE /\ Len(v) = n /\ FEq(v[1], a) /\ FEq(v[n], b)
              /\ \A i \in 1..n : FClose(v[i], LinPt(a, b, n, i - 1), FMul(Times(4, eps), FAdd(FAbs(a), FAbs(b))))
    [] kind = "log" ->
         IF FLe(b, a) \/ n < 2 \/ FLe(a, "0") THEN v = <<>>
         ELSE /\ Len(v) = n /\ FEq(v[1], a) /\ FEq(v[n], b)
              /\ \A i \in 1..n : FNear(v[i], LogPt(a, b, n, i - 1), FMul(Times(4 * n + 8, eps), FAdd("1", FLog(FDiv(b, a)))))
    [] kind = "lll" ->
         \* a third logarithmic up to max/10, a third linear up to 9/10 max, the rest logarithmic with the ends given exactly
         LET n1 == n \div 3
             n3 == n - 2 * n1
             x1 == FMul(b, "0.1")
             x2 == FMul(b, "0.9")
             want(i) == IF i < n1 THEN FMul(a, FExp(FMul(Q(i, n1), FLog(FDiv(x1, a)))))
                        ELSE IF i < 2 * n1 THEN FAdd(x1, FMul(Q(i - n1, n1), FSub(x2, x1)))
                        ELSE FMul(b, FExp(FMul(Q(n - 1 - i, n3 - 1), FLog("0.9"))))
         IN /\ Len(v) = n /\ FEq(v[1], a) /\ FEq(v[n], b)
            /\ \A i \in 1..n : FNear(v[i], want(i - 1), FMul(Times(32, eps), FAdd("1", FAbs(FLog(FDiv(x1, a))))))
\* 0-based position of the first element above val
UpperOK(x, val, r) == /\ r \in 0..Len(x)
                      /\ \A i \in 1..r : FLe(x[i], val)
                      /\ r = Len(x) \/ FLt(val, x[r + 1])
=============================================================================
