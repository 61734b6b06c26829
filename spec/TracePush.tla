------------------------------ MODULE TracePush ------------------------------
(* Checks pushes of particles recorded from the real code.
   A particle is a sequence of 19 numbers: u (3), inverse gamma, E (3), B (3), position (3), E and B of the step before (6).
     kern   E.name, E.n, E.q, E.m, E.dt; E.a, E.b: the particles before and after a kernel was called on the first E.n of them
     hold   E.p: species, number and the 19 numbers of every particle of the run, E.dt; E.sp: <<q, m, moves>> per species
     exch   particles were exchanged between tiles and processes: nothing but the position changes, and the set of particles
     push   E.p after the whole push of a step; E.kind 0..4 the pusher, E.dim, E.how: "full", "part1", "part2" *)
EXTENDS TraceIO, PushOps

VARIABLES held, l
tvars == <<held, l>>
E == Trace[l]
Is(v) == l <= Len(Trace) /\ E.ev = v /\ l' = l + 1

U(p) == <<p[1], p[2], p[3]>>
G(p) == p[4]
EF(p) == <<p[5], p[6], p[7]>>
BF(p) == <<p[8], p[9], p[10]>>
X(p) == <<p[11], p[12], p[13]>>
EO(p) == <<p[14], p[15], p[16]>>
BO(p) == <<p[17], p[18], p[19]>>
SameAll(a, b, S) == \A i \in S : FEq(a[i], b[i])
Inputs == 5..10                                   \* a push leaves the fields
Moved(a, b, dt, D) == \A i \in D3 : IF i \in D THEN FClose(b[10 + i], FAdd(a[10 + i], FMul(FMul(b[i], b[4]), dt)), FMul("4e-16", FAdd(FAbs(a[10 + i]), FAbs(FMul(dt, b[i])))))
                                    ELSE FEq(b[10 + i], a[10 + i])

Momentum(kind, a, b, q, m, dt) ==
  LET k == FDiv(FMul(q, dt), FMul("2", m))
      ul == BorisTo(U(a), EF(b), BF(b), k)
  IN CASE kind = "boris" -> Boris(U(a), U(b), EF(b), BF(b), k) /\ GamOK(U(b), G(b), "1e-12")
       [] kind = "vay" -> Vay(U(a), G(a), U(b), EF(b), BF(b), k) /\ GamOK(U(b), G(b), FMul("1e-11", FAdd("1", FMul(FMul(k, k), VDot(BF(b), BF(b))))))
       [] kind = "s09" -> Reacted(U(a), ul, U(b), S09(U(a), ul, EF(b), BF(b), q, m, dt), dt) /\ GamOK(U(b), G(b), "1e-12")
       [] kind = "b08" -> Reacted(U(a), ul, U(b), B08(U(a), ul, EF(b), BF(b), q, m, dt), dt) /\ GamOK(U(b), G(b), "1e-12")
       [] kind = "ll" -> Reacted(U(a), ul, U(b), LL(U(a), ul, EF(b), BF(b), EO(a), BO(a), q, m, dt), dt) /\ GamOK(U(b), G(b), "1e-12")
       \* the pieces of a push
       [] kind = "vay1" -> Vay1(U(a), G(a), U(b), EF(b), BF(b), k) /\ GamOK(U(b), G(b), "1e-12")
       [] kind = "vay2" -> Vay2(U(a), U(b), EF(b), BF(b), k) /\ GamOK(U(b), G(b), FMul("1e-11", FAdd("1", FMul(FMul(k, k), VDot(BF(b), BF(b))))))
       [] kind = "epush" -> VClose(U(b), VAdd(U(a), VMul(FMul("2", k), EF(b))), FMul("1e-13", FAdd(VNorm(U(a)), VNorm(VMul(k, EF(b)))))) /\ FEq(G(b), G(a))
       [] kind = "bpush" -> Turned(U(a), U(b), VMul(FMul(k, G(a)), BF(b)), VNorm(U(a))) /\ FEq(G(b), G(a))
       [] kind = "gamma" -> SameAll(a, b, 1..3) /\ GamOK(U(b), G(b), "1e-12")

(* a half push: by a half kick and half the rotation, and the other way round; gamma of the momentum half way *)
Part1(a, b, q, m, dt) ==
  LET k == FDiv(FMul(q, dt), FMul("2", m))
      um == VAdd(U(a), VMul(k, EF(b)))
      t == VMul(FMul(FMul("0.5", k), FDiv("1", Gam(um))), BF(b))
  IN Turned(um, U(b), t, FAdd(VNorm(U(a)), VNorm(VMul(k, EF(b))))) /\ GamOK(U(b), G(b), "1e-12")
Part2(a, b, q, m, dt) ==
  LET k == FDiv(FMul(q, dt), FMul("2", m))
      up == VSub(U(b), VMul(k, EF(b)))
      t == VMul(FMul(FMul("0.5", k), G(a)), BF(b))
  IN Turned(U(a), up, t, FAdd(VNorm(U(a)), VNorm(VMul(k, EF(b))))) /\ GamOK(U(b), G(b), "1e-12")

(* kernels *)
KernOK(name, a, b, q, m, dt) ==
  CASE name \in {"xyz", "xz", "2dxz"} -> SameAll(a, b, 1..10 \union 14..19) /\ Moved(a, b, dt, IF name = "xyz" THEN D3 ELSE {1, 3})
    [] OTHER -> SameAll(a, b, 5..19) /\ Momentum(IF name = "borisb" THEN "boris" ELSE name, a, b, q, m, dt)
Kern == Is("kern") /\ UNCHANGED held
        /\ TRUE = \A i \in 1..Len(E.a) : IF i <= E.n THEN KernOK(E.name, E.a[i], E.b[i], E.q, E.m, E.dt) ELSE SameAll(E.a[i], E.b[i], 1..19)

(* whole pushes *)
Kinds == <<"boris", "vay", "s09", "b08", "ll">>
PushOK(a, b, sp, e) ==
  LET kind == Kinds[e.kind + 1]
      D == IF e.dim = 2 THEN {1, 3} ELSE D3
      q == sp[1] m == sp[2]
  IN IF sp[3] = 0 THEN SameAll(a, b, 1..4 \union 11..19)
     ELSE CASE e.how = "full" -> /\ Momentum(kind, a, b, q, m, e.dt) /\ Moved(a, b, e.dt, D)
                                 /\ IF kind = "ll" THEN VSame(EO(b), EF(b)) /\ VSame(BO(b), BF(b)) ELSE SameAll(a, b, 14..19)
            [] e.how = "part1" -> (IF kind = "vay" THEN Momentum("vay1", a, b, q, m, e.dt) ELSE Part1(a, b, q, m, e.dt)) /\ SameAll(a, b, 11..19)
            [] e.how = "part2" -> (IF kind = "vay" THEN Momentum("vay2", a, b, q, m, e.dt) ELSE Part2(a, b, q, m, e.dt)) /\ Moved(a, b, e.dt, D)
                                  /\ SameAll(a, b, 5..10 \union 14..19)
SameSet(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][2] = b[i][2]
Hold == Is("hold") /\ held' = E.p
Exch == Is("exch") /\ TRUE = (SameSet(held, E.p) /\ \A i \in 1..Len(held) : SameAll(held[i][3], E.p[i][3], 1..4 \union 14..19)) /\ held' = E.p
Push == Is("push") /\ TRUE = (SameSet(held, E.p) /\ \A i \in 1..Len(held) : PushOK(held[i][3], E.p[i][3], E.sp[E.p[i][1]], E)) /\ held' = E.p

TraceInit == held = <<>> /\ l = 1
TraceNext == Kern \/ Hold \/ Exch \/ Push
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
