------------------------------ MODULE TraceLoad ------------------------------
(* The plasma and the laser antennas a run starts with, from its input file on (TraceDeck).
     plasma    the particles of species E.s: E.parts[r], those of process r, each position, momentum, 1/gamma, weight and two more;
               E.box[r]: first cell (E.box[r][1], from 0) and number of cells (E.box[r][2]) of the process, per axis;
               E.npart[r]: what the process counts; E.ntot: particles of all species together
     antenna   the same for an antenna, and E.par: what the antenna's parameters became *)
EXTENDS TraceDeck

XYZs == <<"x", "y", "z">>
Dims == IF Two THEN {1, 3} ELSE {1, 2, 3}
Lo(a) == par[XYZs[a] \o "min"]
N(a) == FFloor(par["n" \o XYZs[a] \o "_global_grid"]) - 1
D(a) == FDiv(FSub(par[XYZs[a] \o "max"], Lo(a)), F(N(a)))
Clip(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
(* node nearest to v *)
Node(a, v) == FFloor(FAdd(FDiv(FSub(v, Lo(a)), D(a)), "0.5"))
(* cells lo..hi-1 of species q, on the whole grid and on process r *)
Cells(q) == [a \in Dims |-> <<Clip(Node(a, q[XYZs[a] \o "_min"]), 0, N(a)), Clip(Node(a, q[XYZs[a] \o "_max"]), 0, N(a))>>]
Mine(c, r) == [a \in Dims |-> <<Clip(c[a][1], E.box[r][1][a], E.box[r][1][a] + E.box[r][2][a]), Clip(c[a][2], E.box[r][1][a], E.box[r][1][a] + E.box[r][2][a])>>]
Width(c, a) == IF a \notin Dims THEN 1 ELSE IF c[a][2] > c[a][1] THEN c[a][2] - c[a][1] ELSE 0
Volume(c) == Width(c, 1) * Width(c, 2) * Width(c, 3)
RECURSIVE FProd(_)
FProd(s) == IF s = <<>> THEN "1" ELSE FMul(s[1], FProd(Tail(s)))
Cell == IF Two THEN FMul(D(1), D(3)) ELSE FProd(<<D(1), D(2), D(3)>>)
Ranks == 1..Len(E.parts)
Weight(q) == FDiv(FMul(FMul(par.nlab, par.g0), Cell), q.nppcell)

(* distribution 1: in each cell of the box of the species, nppcell particles at equal distances along the diagonal, from the corner on
   in 2D, half a distance into the cell in 3D.  A place is the number of the particle, counted in distances, per axis *)
Shift == IF Two THEN "0" ELSE "0.5"
Regular(q) ==
  LET n == FFloor(q.nppcell)
      c == TLCEval(Cells(q))
      d == TLCEval([a \in Dims |-> FDiv(D(a), q.nppcell)])
      at(p, a) == FFloor(FAdd(FDiv(FSub(p[a], Lo(a)), d[a]), FSub("0.5", Shift)))
      key == TLCEval([r \in Ranks |-> [i \in 1..Len(E.parts[r]) |-> [a \in Dims |-> at(E.parts[r][i], a)]]])
      all == TLCEval(UNION {{key[r][i] : i \in 1..Len(key[r])} : r \in Ranks})
  IN /\ SumSeq([r \in Ranks |-> Len(E.parts[r])]) = Cardinality(all)
     /\ Cardinality(all) = n * Volume(c)
     /\ \A k \in all : /\ \A a \in Dims : k[a] \div n >= c[a][1] /\ k[a] \div n < c[a][2]
                       /\ \A a, b \in Dims : k[a] % n = k[b] % n
     /\ \A r \in Ranks : \A i \in 1..Len(key[r]) : \A a \in Dims :
          /\ FClose(E.parts[r][i][a], FAdd(Lo(a), FMul(FAdd(F(key[r][i][a]), Shift), d[a])), FMul("1e-6", d[a]))
          /\ key[r][i][a] \div n >= E.box[r][1][a] /\ key[r][i][a] \div n < E.box[r][1][a] + E.box[r][2][a]

(* distributions 2 and 3: as many particles as cells ask for, anywhere within the box of the species *)
Random(q) ==
  LET c == TLCEval(Cells(q))
      h == TLCEval([a \in Dims |-> D(a)])
  IN \A r \in Ranks : LET m == TLCEval(Mine(c, r)) IN
       /\ Len(E.parts[r]) = Volume(m) * FFloor(q.nppcell)
       /\ \A i \in 1..Len(E.parts[r]) : \A a \in Dims :
            /\ FLe(FAdd(Lo(a), FMul(FSub(F(m[a][1]), "1e-6"), h[a])), E.parts[r][i][a])
            /\ FLe(E.parts[r][i][a], FAdd(Lo(a), FMul(FAdd(F(m[a][2]), "1e-6"), h[a])))
       /\ Len(E.parts[r]) < 2 \/ \E i \in 2..Len(E.parts[r]) : E.parts[r][i][1] # E.parts[r][1][1]

(* velocities: the drift and a thermal part, bounded since the code cuts the tail of its normal numbers at the probability 1e-10 *)
Vel(q, p, a) == FSub(FMul(p[3 + a], p[7]), q["vdrift_" \o XYZs[a]])
Gam(p) == FDiv("1", FSqrt(FAdd("1", FDiv(FSum(<<Sq(p[4]), Sq(p[5]), Sq(p[6])>>), Sq(K[3])))))
Bound == "6.7862"
Dither == FMul("1e-12", K[3])
Speeds(q) ==
  \A r \in Ranks : LET ps == E.parts[r] IN
    /\ \A i \in 1..Len(ps) :
         /\ FNear(ps[i][7], Gam(ps[i]), "1e-9")
         /\ IF par.pdistr = "3" THEN FClose(FSqrt(FSum([a \in 1..3 |-> Sq(Vel(q, ps[i], a))])), FAbs(q.vth_x), Dither)
            ELSE \A a \in 1..3 : FLe(FAbs(Vel(q, ps[i], a)), FAdd(FMul(Bound, FAbs(q["vth_" \o XYZs[a]])), Dither))
    (* and random: neither the mean nor the spread is that of some constant *)
    /\ Len(ps) >= 60 => \A a \in 1..3 :
         LET vth == IF par.pdistr = "3" THEN FAbs(q.vth_x) ELSE FAbs(q["vth_" \o XYZs[a]])
             v == TLCEval([i \in 1..Len(ps) |-> Vel(q, ps[i], a)])
             m == FDiv(FSum(v), F(Len(ps)))
             s == FSqrt(FDiv(FDot(v, v), F(Len(ps))))
         IN FLe(FAbs(m), FAdd(FDiv(FMul("8", vth), FSqrt(F(Len(ps)))), Dither)) /\ FLe(FMul("0.3", vth), FAdd(s, Dither)) /\ FLe(s, FAdd(FMul("2", vth), Dither))

Plasma1 ==
  /\ Is("plasma")
  /\ LET q == sp[E.s] w == Weight(q) IN TRUE = (
       /\ q.is_antenna = "F"
       /\ \A r \in Ranks : E.npart[r] = Len(E.parts[r]) /\ \A i \in 1..Len(E.parts[r]) : FNear(E.parts[r][i][8], w, "1e-9")
       /\ IF par.pdistr = "1" THEN Regular(q) ELSE IF par.pdistr \in {"2", "3"} THEN Random(q) ELSE \A r \in Ranks : E.parts[r] = <<>>
       /\ Speeds(q))
  /\ UNCHANGED <<par, sp, dumps, sec>>

(* laser antennas: a particle in the middle of every cell of the plane through the spot, seen along the axis that the plane leaves *)
Norm(v) == LET m == FSqrt(FDot(v, v)) IN <<FDiv(v[1], m), FDiv(v[2], m), FDiv(v[3], m)>>
Cross(u, v) == <<FSub(FMul(u[2], v[3]), FMul(u[3], v[2])), FSub(FMul(u[3], v[1]), FMul(u[1], v[3])), FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
Vec(q, k) == <<q[k \o "1"], q[k \o "2"], q[k \o "3"]>>
Zero(x) == FEq(x, "0")
RECURSIVE Least(_)
Least(s) == IF Len(s) = 1 THEN s[1] ELSE FMin(s[1], Least(Tail(s)))
Antenna1 ==
  /\ Is("antenna")
  /\ LET q == sp[E.s]
         k0 == FDiv(FMul("2", "3.14159265358979323846"), q.lambda_laser)
         unit(x) == FDiv(FProd(<<x, Sq(K[3]), K[1], k0>>), K[2])
         e1 == unit(q.laser_a_1)
         e2 == unit(q.laser_a_2)
         v == Norm(IF Two THEN <<q.vector1, "0", q.vector3>> ELSE Vec(q, "vector"))
         p1 == Norm(Vec(q, "polvector1"))
         p2 == Cross(v, p1)
         emax == FSqrt(FAdd(Sq(e1), Sq(e2)))
         spot == IF Two THEN <<q.spot_x, "0", q.spot_z>> ELSE <<q.spot_x, q.spot_y, q.spot_z>>
         o == IF ~Zero(v[3]) THEN 3 ELSE IF ~Zero(v[2]) THEN 2 ELSE 1
         plane == Dims \ {o}
         h == TLCEval([a \in Dims |-> D(a)])
         mid(a, i) == FAdd(Lo(a), FMul(FAdd(F(i), "0.5"), h[a]))
         (* where the plane is, over the cell c *)
         height(c) == FDiv(FSub(FDot(v, spot), FSum([a \in 1..3 |-> IF a \in plane THEN FMul(v[a], mid(a, c[a])) ELSE "0"])), v[o])
         inside(c) == LET z == height(c) IN FLe(Lo(o), z) /\ FLt(z, FAdd(Lo(o), FMul(F(N(o)), h[o])))
         key == TLCEval([r \in Ranks |-> [i \in 1..Len(E.parts[r]) |-> [a \in plane |-> FFloor(FDiv(FSub(E.parts[r][i][a], Lo(a)), h[a]))]]])
         all == TLCEval(UNION {{key[r][i] : i \in 1..Len(key[r])} : r \in Ranks})
         grid == TLCEval({c \in [plane -> 0..Max2(Max2(N(1), N(2)), N(3))] : \A a \in plane : c[a] < N(a)})
         side(p) == Least(<<"1">> \o [a \in 1..3 |-> IF a \notin Dims \/ Zero(p[a]) THEN "1" ELSE FAbs(FDiv(h[a], p[a]))])
         w == FMul(FDiv(FMul(K[4], emax), "0.01"), IF ~Two THEN FMul(side(p1), side(p2)) ELSE IF Zero(p2[2]) THEN side(p2) ELSE side(p1))
         is(k, x) == FNear(E.par[k], x, "1e-9")
         dir(k, u) == \A i \in 1..3 : FClose(E.par[k \o ToString(i)], u[i], "1e-12")
     IN TRUE = (
       /\ q.is_antenna = "T"
       /\ dir("vector", v) /\ dir("polvector1", p1) /\ dir("polvector2", p2)
       /\ is("k0", k0) /\ is("Emax1", e1) /\ is("Emax2", e2) /\ is("Emax", emax) /\ is("tau", FDiv(q.laser_ctau, K[3]))
       /\ IF Zero(emax) THEN all = {}
          ELSE /\ is("zr", FProd(<<"0.5", k0, Sq(q.laser_w0)>>)) /\ FNear(E.par.inv_zr, FDiv("1", E.par.zr), "1e-9")
               /\ FNear(E.par.inv_w02, FDiv("1", Sq(q.laser_w0)), "1e-9")
               /\ all = {c \in grid : inside(c)}
               /\ SumSeq([r \in Ranks |-> Len(E.parts[r])]) = Cardinality(all)
       /\ \A r \in Ranks : E.npart[r] = Len(E.parts[r]) /\ \A i \in 1..Len(key[r]) :
            LET p == E.parts[r][i]
                pos == <<p[1], IF Two THEN "0" ELSE p[2], p[3]>>
                off == [a \in 1..3 |-> FSub(pos[a], spot[a])]
                far == FMul("1e-9", FSum([a \in 1..3 |-> FAdd(FAbs(pos[a]), FAbs(spot[a]))]))
            IN /\ \A a \in plane : FClose(p[a], mid(a, key[r][i][a]), FMul("1e-6", h[a]))
                                   /\ key[r][i][a] >= E.box[r][1][a] /\ key[r][i][a] < E.box[r][1][a] + E.box[r][2][a]
               /\ FClose(p[o], height(key[r][i]), FMul("1e-6", h[o]))
               /\ LET z == FDiv(FSub(p[o], Lo(o)), h[o]) IN FLe(F(E.box[r][1][o]), FAdd(z, "1e-6")) /\ FLe(z, FAdd(F(E.box[r][1][o] + E.box[r][2][o]), "1e-6"))
               /\ \A j \in 4..6 : Zero(p[j])
               /\ FEq(p[7], "1") /\ FNear(p[8], w, "1e-9")
               /\ FClose(p[9], FDot(off, p1), far) /\ FClose(p[10], FDot(off, p2), far))
  /\ UNCHANGED <<par, sp, dumps, sec>>

Total == /\ Is("total") /\ E.ntot = SumSeq(E.npart) /\ UNCHANGED <<par, sp, dumps, sec>>

LoadNext == TraceNext \/ Plasma1 \/ Antenna1 \/ Total
LoadSpec == TraceInit /\ [][LoadNext]_tvars
=============================================================================
