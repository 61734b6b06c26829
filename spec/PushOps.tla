------------------------------ MODULE PushOps ------------------------------
(* The equations of motion, in vectors of real numbers (F64).  u is the momentum over the mass, gamma = sqrt(1+u^2/c^2),
   v = u/gamma, gi = 1/gamma.  The pushes of a time step are specified by the (implicit) equations they solve, not by the
   way they are solved. *)
EXTENDS F64

c == "299792458"
eps0 == "8.854187817620389e-12"
pi6 == "18.84955592153876"                       \* 6 pi
D3 == 1..3
V0 == <<"0", "0", "0">>
VAdd(a, b) == [i \in D3 |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in D3 |-> FSub(a[i], b[i])]
VMul(k, a) == [i \in D3 |-> FMul(k, a[i])]
VDot(a, b) == FAdd(FAdd(FMul(a[1], b[1]), FMul(a[2], b[2])), FMul(a[3], b[3]))
VCross(a, b) == << FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1])) >>
VNorm(a) == FSqrt(VDot(a, a))
VClose(a, b, d) == \A i \in D3 : FClose(a[i], b[i], d)
VSame(a, b) == \A i \in D3 : FEq(a[i], b[i])

Gam(u) == FSqrt(FAdd("1", FDiv(VDot(u, u), FMul(c, c))))
Vel(u) == VMul(FDiv("1", Gam(u)), u)
(* inverse gamma g belongs to the momentum u *)
GamOK(u, g, d) == FClose(FMul(g, Gam(u)), "1", d)

(* half the electric kick; half the rotation angle of a magnetic field at inverse gamma g *)
HalfKick(s, k, E) == VMul(k, E)
Sum3(a, b, d) == FAdd(a, FAdd(b, d))

(* u1 is u0 turned around B through the implicit midpoint rule: u1 - u0 = (u1 + u0) x t *)
Turned(u0, u1, t, scale) ==
  VClose(VSub(u1, u0), VCross(VAdd(u1, u0), t), FMul("1e-11", FMul(scale, FAdd("1", VNorm(t)))))

(* Boris: half a kick by E, rotation about B with the gamma in between, half a kick; k = q dt / 2m *)
Boris(u0, u1, E, B, k) ==
  LET um == VAdd(u0, VMul(k, E))
      up == VSub(u1, VMul(k, E))
      t == VMul(FMul(k, FDiv("1", Gam(um))), B)
      scale == Sum3(VNorm(u0), VNorm(u1), VNorm(VMul(k, E)))
  IN Turned(um, up, t, scale)

(* the same, solved (Cayley transform): needed where something is added to the push *)
BorisTo(u0, E, B, k) ==
  LET um == VAdd(u0, VMul(k, E))
      t == VMul(FMul(k, FDiv("1", Gam(um))), B)
      tt == VDot(t, t)
      up == VMul(FDiv("1", FAdd("1", tt)), VAdd(VAdd(VMul(FSub("1", tt), um), VMul("2", VCross(um, t))), VMul(FMul("2", VDot(um, t)), t)))
  IN VAdd(up, VMul(k, E))

(* Vay: u1 - u0 = 2k (E + (v0 + v1)/2 x B), with v1 the velocity of u1 *)
VayTol(u0, u1, E, B, k) ==
  LET t == VNorm(VMul(k, B)) IN FMul("1e-11", FMul(Sum3(VNorm(u0), VNorm(u1), VNorm(VMul(FMul("2", k), E))), FMul(FAdd("1", t), FAdd("1", t))))
Vay(u0, g0, u1, E, B, k) ==
  VClose(VSub(u1, u0), VAdd(VMul(FMul("2", k), E), VCross(VMul(k, VAdd(VMul(g0, u0), Vel(u1))), B)), VayTol(u0, u1, E, B, k))
(* its halves: explicit, then implicit *)
Vay1(u0, g0, u1, E, B, k) == VClose(VSub(u1, u0), VAdd(VMul(k, E), VCross(VMul(FMul(k, g0), u0), B)), VayTol(u0, u1, E, B, k))
Vay2(u0, u1, E, B, k) == VClose(VSub(u1, u0), VAdd(VMul(k, E), VCross(VMul(k, Vel(u1)), B)), VayTol(u0, u1, E, B, k))

(* radiation reaction, added to the Boris push from u0 to ul; tau0 = q^2 / (6 pi eps0 m c^3), qm = q/m; forces over the mass, at the
   momentum half way *)
Tau0(q, m) == FDiv(FMul(q, q), FMul(FMul(pi6, eps0), FMul(m, FMul(c, FMul(c, c)))))
Half(u0, ul) == VMul("0.5", VAdd(u0, ul))
S09(u0, ul, E, B, q, m, dt) ==
  LET f == VMul(FDiv("1", dt), VSub(ul, u0))       \* Lorentz force
      u == Half(u0, ul)
      v == Vel(u)
      c2 == FMul(c, c)
      dv == VMul(FDiv(Tau0(q, m), FAdd("1", FMul(Tau0(q, m), FDiv(VDot(v, f), c2)))), VSub(f, VMul(FDiv(VDot(v, f), c2), v)))
  IN VSub(VMul(FDiv(q, m), VCross(dv, B)), VMul(FDiv(FMul(FMul(Gam(u), Gam(u)), VDot(f, dv)), c2), v))
B08(u0, ul, E, B, q, m, dt) ==
  LET u == Half(u0, ul)
      v == Vel(u)
      uu == VDot(u, u)
      et == VSub(E, VMul(FDiv(VDot(E, u), uu), u))
      f == VAdd(et, VCross(v, B))
      qm == FDiv(q, m)
  IN IF FEq(uu, "0") THEN V0
     ELSE VMul(FNeg(FDiv(FMul(FMul(Tau0(q, m), FMul(qm, qm)), FMul(FMul(Gam(u), Gam(u)), VDot(f, f))), FMul(c, c))), v)
LL(u0, ul, E, B, E0, B0, q, m, dt) ==
  LET u == Half(u0, ul)
      v == Vel(u)
      g == Gam(u)
      c2 == FMul(c, c)
      qm == FDiv(q, m)
      dE == VMul(FDiv("1", dt), VSub(E, E0))
      dB == VMul(FDiv("1", dt), VSub(B, B0))
      f == VAdd(E, VCross(v, B))
      ve == VDot(v, E)
      drift == VAdd(VAdd(VCross(E, B), VCross(VCross(v, B), B)), VMul(FDiv(ve, c2), E))
      brake == VMul(FDiv(FMul(FMul(g, g), FSub(VDot(f, f), FDiv(FMul(ve, ve), c2))), c2), v)
  IN VMul(FMul(Tau0(q, m), qm), VAdd(VMul(g, VAdd(dE, VCross(v, dB))), VMul(qm, VSub(drift, brake))))

(* u1 is the Boris push plus dt times the force rr *)
Reacted(u0, ul, u1, rr, dt) ==
  LET scale == FAdd(VNorm(u0), VNorm(ul)) IN
  VClose(VSub(u1, ul), VMul(dt, rr), FAdd(FMul("1e-11", scale), FMul("1e-8", FMul(dt, VNorm(rr)))))
=============================================================================
