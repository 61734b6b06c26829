------------------------------ MODULE TraceDeck ------------------------------
(* Checks what the real code makes of an input file and a command line (DeckOps).
     conf   E.base: every parameter after the defaults are set; E.c: electron mass, elementary charge, speed of light, eps0
     line   a line of the input file.  E.k: open, close (section E.s), key (E.key = E.v), or skip: comments, blanks, keywords outside any section
     arg    a pair of arguments, E.key and E.v
     read   E.par: every parameter after file and command line were read; E.sp, E.dump: the species and particle dumps
     start  E.par: parameters, and what is derived from them, when the run is about to start; E.np processes, E.n cells of the first *)
EXTENDS TraceIO, DeckOps, F64

VARIABLES par, sp, dumps, sec, l
tvars == <<par, sp, dumps, sec, l>>
E == Trace[l]
K == Trace[1].c
Is(v) == l <= Len(Trace) /\ E.ev = v /\ l' = l + 1

Conv(how, v) == IF how = "v*me" THEN FMul(v, K[1]) ELSE IF how = "v*qe" THEN FMul(v, K[2])
                ELSE IF how = "v*c" THEN FMul(v, K[3]) ELSE v
Words == {"T", "F"}
Same2(a, b) == IF a = b \/ b = "any" THEN TRUE ELSE a \notin Words /\ b \notin Words /\ FNear(a, b, "1e-14")

Conf == /\ Is("conf") /\ par' = E.base /\ sp' = <<>> /\ dumps' = <<>> /\ sec' = ""
        /\ \A p \in DOMAIN Defaults : Same2(E.base[p], Defaults[p])

Zeros(ks) == [k \in ks |-> "0"]
NewSpecies == ("charge" :> FNeg(K[2])) @@ ("mass" :> K[1]) @@ ("is_antenna" :> "F") @@ ("ldodepos" :> "T") @@ ("lfreeze" :> "F")
              @@ Zeros({r[2] : r \in Species} \ {"name"}) @@ ("name" :> "") @@ ("species_npart" :> "0")
NewAntenna == ("charge" :> "1") @@ ("mass" :> K[1]) @@ ("nppcell" :> "1") @@ ("is_antenna" :> "T") @@ ("name" :> "laser_antenna") @@ ("temporal_order" :> "2")
              @@ Zeros({r[2] : r \in Antenna} \union {"polvector21", "polvector22", "polvector23"}) @@ NewSpecies
(* a laser antenna is two species, of opposite charges *)
Twin(a) == ("charge" :> "-1") @@ a
NewDump(p) == [b \in {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"} |->
                 p[CHOOSE q \in {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"} : \E a \in {"x", "y", "z"}, m \in {"min", "max"} : b = a \o "_" \o m /\ q = a \o m]]
              @@ ("diag_period" :> "-1") @@ ("ispecies" :> "-1") @@ [b \in DumpBounds |-> "any"]
Named(nm) == CHOOSE i \in 1..Len(sp) : sp[i].name = nm /\ \A j \in 1..(i - 1) : sp[j].name # nm

Open == /\ Is("line") /\ E.k = "open" /\ sec = "" /\ sec' = E.s /\ UNCHANGED par
        /\ sp' = IF E.s = "species" THEN Append(sp, NewSpecies) ELSE IF E.s = "antenna" THEN Append(sp, NewAntenna) ELSE sp
        /\ dumps' = IF E.s = "particle_dump" THEN Append(dumps, NewDump(par)) ELSE dumps
Close == /\ Is("line") /\ E.k = "close" /\ sec = E.s /\ sec' = "" /\ UNCHANGED <<par, dumps>>
         /\ sp' = IF sec = "antenna" THEN Append(sp, Twin(sp[Len(sp)])) ELSE sp
Key == /\ Is("line") /\ E.k = "key" /\ UNCHANGED sec
       /\ LET t == TLCEval(Keys(sec)) IN
          /\ par' = IF sec \in Plain THEN Set(par, t, E.key, E.v, Conv) ELSE par
          /\ sp' = IF sec \in {"species", "antenna"} THEN [sp EXCEPT ![Len(sp)] = Set(@, t, E.key, E.v, Conv)] ELSE sp
          /\ dumps' = IF sec # "particle_dump" THEN dumps
                      ELSE IF E.key = "species_name" THEN [dumps EXCEPT ![Len(dumps)] = ("ispecies" :> ToString(Named(E.v))) @@ @]
                      ELSE [dumps EXCEPT ![Len(dumps)] = Set(@, t, E.key, E.v, Conv)]
Skip == Is("line") /\ E.k = "skip" /\ UNCHANGED <<par, sp, dumps, sec>>
Arg == Is("arg") /\ sec = "" /\ par' = Set(par, CommandLine, E.key, E.v, Conv) /\ UNCHANGED <<sp, dumps, sec>>

Any3(p) == IF "T" \in {p.absorbing_bcs_x, p.absorbing_bcs_y, p.absorbing_bcs_z} THEN "T" ELSE "any"  (* room for split fields: where none absorbs, the fields are the same with it *)
Full == ("absorbing_bcs" :> Any3(par)) @@ ("nspecies" :> ToString(Len(sp))) @@ ("npdumps" :> ToString(Len(dumps))) @@ par
Read == /\ Is("read")
        /\ par' = TLCEval(Full)
        /\ \A p \in DOMAIN par' : Same2(E.par[p], par'[p])
        /\ Len(E.sp) = Len(sp) /\ Len(E.dump) = Len(dumps)
        /\ \A i \in 1..Len(sp) : \A k \in DOMAIN sp[i] : IF k = "name" THEN E.sp[i][k] = sp[i][k] ELSE Same2(E.sp[i][k], sp[i][k])
        /\ \A i \in 1..Len(dumps) : \A k \in DOMAIN dumps[i] : Same2(E.dump[i][k], dumps[i][k])
        /\ UNCHANGED <<sp, dumps, sec>>

(* the run about to start: what follows from the parameters *)
Near(a, b) == FNear(a, b, "1e-12")
Two == par.c_dim = "2"
Derived == {"dx", "dy", "dz", "nsteps", "tmax", "sorting_dx", "sorting_dy", "sorting_dz", "sorting_shiftx", "sorting_shifty", "sorting_shiftz",
            "nprocx", "nprocy", "nprocz", "ntilex", "ntiley", "ntilez"} \union (IF Two THEN {"ymin", "ymax", "nyguards", "nyjguards"} ELSE {})
Sq(x) == FMul(x, x)
Start ==
  /\ Is("start")
  /\ LET g == E.par
         d == [a \in {"x", "y", "z"} |-> FDiv(FSub(par[a \o "max"], par[a \o "min"]), FSub(par["n" \o a \o "_global_grid"], "1"))]
         axes == IF Two THEN {"x", "z"} ELSE {"x", "y", "z"}
         inv == FAdd(FAdd(Sq(FDiv("1", d.x)), Sq(FDiv("1", d.z))), IF Two THEN "0" ELSE Sq(FDiv("1", d.y)))
         least == FMin(FMin(d.x, d.z), IF Two THEN d.x ELSE d.y)
         dt == IF par.l_spectral = "T" THEN FDiv(least, K[3]) ELSE FDiv(par.dtcoef, FMul(K[3], FSqrt(inv)))
         nc == FMul(par.nlab, par.g0)
         w(n) == FMul(K[2], FSqrt(FDiv(n, FMul(K[1], K[4]))))
         wl == w(FDiv(nc, par.g0))
         steps == FDiv(par.tmax, FMul(wl, dt))
     IN TRUE = (
       /\ \A p \in DOMAIN par \ Derived : Same2(g[p], par[p])
       /\ FFloor(FMul(FMul(g.nprocx, g.nprocy), g.nprocz)) = E.np
       /\ \A a \in axes : Near(g["d" \o a], d[a]) /\ Near(g["d" \o a \o "i"], FDiv("1", d[a]))
                          /\ Near(g["dtsd" \o a \o "0"], FDiv(dt, d[a])) /\ Near(g["dts2d" \o a], FDiv(FDiv(dt, d[a]), "2"))
                          /\ Near(g["sorting_d" \o a], FMul(par["sorting_d" \o a], d[a]))
                          /\ Near(g["sorting_shift" \o a], FMul(par["sorting_shift" \o a], d[a]))
       /\ Near(g.dt, dt)
       /\ Near(g.nc, nc) /\ Near(g.wlab, w(par.nlab)) /\ Near(g.w0_l, wl) /\ Near(g.w0, wl) /\ Near(g.w0_t, w(FDiv(nc, FMul(par.g0, Sq(par.g0)))))
       /\ IF par.nsteps = "0" THEN FLe(FAbs(FSub(g.nsteps, steps)), "0.50001") /\ Near(g.tmax, par.tmax)
          ELSE g.nsteps = par.nsteps /\ Near(g.tmax, FMul(FMul(par.nsteps, wl), dt))
       /\ g.it = "0"
       (* a tile has four nodes at least, or there is one tile *)
       /\ \A a \in axes : g["ntile" \o a] = (IF (E.n[a] + 1) \div FFloor(par["ntile" \o a]) < 4 THEN "1" ELSE par["ntile" \o a])
       /\ Two => g.ntiley = "1"
       /\ \A a \in axes : g["n" \o a \o "_global"] = ToString(FFloor(par["n" \o a \o "_global_grid"]) - 1))
  /\ UNCHANGED <<par, sp, dumps, sec>>

TraceInit == par = [k \in {} |-> ""] /\ sp = <<>> /\ dumps = <<>> /\ sec = "" /\ l = 1
TraceNext == Conf \/ Open \/ Close \/ Key \/ Skip \/ Arg \/ Read \/ Start
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
