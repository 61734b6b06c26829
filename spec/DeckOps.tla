------------------------------- MODULE DeckOps -------------------------------
(* What the lines of an input file, and the arguments of the command line, mean.
   Keys(s): for each keyword of section s the parameters it sets, <<keyword, parameter, how>>: "v" to the value itself,
   "v*me", "v*qe", "v*c" to the value in electron masses, elementary charges, speeds of light. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* a row <<k, p, how>>: keyword k sets parameter p *)
Same(ks) == {<<k, k, "v">> : k \in ks}
As(pre, ks) == {<<k, pre \o k, "v">> : k \in ks}
XYZ == {"x", "y", "z"}
Ax(k) == {k \o a : a \in XYZ}
(* keywords with one form per axis, from prefix q and suffix r to prefix m and suffix n *)
Per(q, r, m, n) == {<<q \o a \o r, m \o a \o n, "v">> : a \in XYZ}
Scaled(ks, how) == {<<k, k, how>> : k \in ks}
Lvec == {"lvec_curr_depo", "lvec_charge_depo", "lvec_fieldgathe"}
Bcs == {"absorbing_bcs_x", "absorbing_bcs_y", "absorbing_bcs_z"}

Main == Same({"c_dim", "nsteps", "dtcoef", "l_plasma", "xmin", "ymin", "zmin", "xmax", "ymax", "zmax", "dx", "dy", "dz"} \union Ax("ntile"))
        \union Per("n", "", "n", "_global_grid") \union Per("nguards", "", "n", "guards") \union Per("nguards", "", "n", "g_group")
        \union Per("njguards", "", "n", "jguards") \union Per("ngguards_", "", "n", "g_group") \union {<<"t_max", "tmax", "v">>}
Cpu == Same({"topology", "mpicom_curr", "partcom", "fg_p_pp_separated", "particle_pusher", "mpi_buf_size", "c_dim"} \union Lvec \union Ax("nproc"))
Plasma == Same({"nlab", "pdistr", "particle_pusher"}) \union {<<"gamma0", "g0", "v">>}
Solver == Same({"nox", "noy", "noz", "nx_pml", "ny_pml", "nz_pml", "currdepo", "fieldgathe", "rhodepo", "partcom", "mpi_buf_size", "l_spectral",
                "g_spectral", "l_staggered", "fftw_with_mpi", "fftw_hybrid", "fftw_mpi_transpose", "p3dfft_flag", "p3dfft_stride", "nb_group_z",
                "fg_p_pp_separated"} \union Lvec \union Bcs \union Ax("norder"))
Sorting == As("sorting_", {"dx", "dy", "dz", "shiftx", "shifty", "shiftz", "verbose"}) \union {<<"activation", "sorting_activated", "v">>}
Timestat == {<<"activation", "timestat_activated", "v">>, <<"period", "timestat_period", "v">>, <<"it_start", "timestat_itstart", "v">>,
             <<"per_it", "timestat_perit", "v">>, <<"buffersize", "nbuffertimestat", "v">>}
Output == Same({"output_frequency", "output_step_min", "output_step_max"})
          \union As("c_output_", {"ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho", "dive", "divj", "divb"})
TempNames == <<"kinE", "exE", "eyE", "ezE", "bxE", "byE", "bzE", "divE-rho", "rho", "divE">>
Temporal == As("temdiag_", {"frequency", "format"}) \union {<<TempNames[i], "temdiag_act_list" \o ToString(i), "v">> : i \in 1..10}
Species == Same({"name", "nppcell", "x_min", "x_max", "y_min", "y_max", "z_min", "z_max", "sorting_period", "sorting_start"})
           \union Scaled({"mass"}, "v*me") \union Scaled({"charge"}, "v*qe")
           \union Scaled({"vdrift_x", "vdrift_y", "vdrift_z", "vth_x", "vth_y", "vth_z"}, "v*c")
Antenna == Same({"spot_x", "spot_y", "spot_z", "lambda_laser", "laser_ctau", "t_peak", "laser_a_1", "laser_a_2", "laser_w0", "polangle", "temporal_order"})
           \union {<<"window", "time_window", "v">>,
                   <<"vector_x", "vector1", "v">>, <<"vector_y", "vector2", "v">>, <<"vector_z", "vector3", "v">>,
                   <<"pvec_x", "polvector11", "v">>, <<"pvec_y", "polvector12", "v">>, <<"pvec_z", "polvector13", "v">>}
DumpBounds == {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max", "ux_min", "ux_max", "uy_min", "uy_max", "uz_min", "uz_max"}
Dump == Same({"diag_period", "species_name"}) \union {<<"dump_" \o b, b, "v">> : b \in DumpBounds}

(* the command line: keyword, then value *)
CommandLine ==
  Same({"nsteps", "dtcoef", "nox", "noy", "noz", "tmax", "fieldgathe", "currdepo", "rhodepo", "partcom", "particle_pusher", "l_plasma",
        "l_spectral", "g_spectral", "fftw_with_mpi", "fftw_hybrid", "fftw_mpi_transpose", "p3dfft_flag", "p3dfft_stride",
        "mpicom_curr", "mpi_buf_size", "nb_group_z", "c_dim"} \union Lvec \union Bcs \union Ax("ntile") \union Ax("nproc"))
  \union {<<"distr", "pdistr", "v">>, <<"sorting", "sorting_activated", "v">>}
  \union Per("n", "", "n", "_global_grid") \union Per("nguards", "", "n", "guards") \union Per("nguards", "", "n", "jguards")
  \union Per("ngguards_", "", "n", "g_group") \union Per("n", "pml", "n", "_pml")

Plain == {"main", "cpusplit", "plasma", "solver", "sorting", "timestat", "output", "temporal"}
Sections == Plain \union {"species", "antenna", "particle_dump"}
Keys(s) == CASE s = "main" -> Main [] s = "cpusplit" -> Cpu [] s = "plasma" -> Plasma [] s = "solver" -> Solver [] s = "sorting" -> Sorting
             [] s = "timestat" -> Timestat [] s = "output" -> Output [] s = "temporal" -> Temporal
             [] s = "species" -> Species [] s = "antenna" -> Antenna [] s = "particle_dump" -> Dump

(* the parameters par after keyword k of table t is given value v; how a value is converted is up to Conv *)
Set(par, t, k, v, Conv(_, _)) ==
  LET rows == TLCEval({r \in t : r[1] = k})
      f[m \in SUBSET rows] == IF m = {} THEN par ELSE LET r == CHOOSE r \in m : TRUE IN [f[m \ {r}] EXCEPT ![r[2]] = Conv(r[3], v)]
  IN TLCEval(f[rows])

(* everything defaults that the documentation states *)
Defaults == ("lvec_curr_depo" :> "8") @@ ("lvec_charge_depo" :> "64") @@ ("lvec_fieldgathe" :> "256") @@ ("mpi_buf_size" :> "2000")
            @@ ("nsteps" :> "0") @@ ("ntilex" :> "1") @@ ("ntiley" :> "1") @@ ("ntilez" :> "1") @@ ("nspecies" :> "0") @@ ("npdumps" :> "0")
            @@ ("c_dim" :> "3") @@ ("norderx" :> "2") @@ ("nordery" :> "2") @@ ("norderz" :> "2") @@ ("nox" :> "1") @@ ("noy" :> "1") @@ ("noz" :> "1")
            @@ ("absorbing_bcs" :> "F") @@ ("l_spectral" :> "F") @@ ("output_frequency" :> "-1") @@ ("temdiag_frequency" :> "0")
=============================================================================
