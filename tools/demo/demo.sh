#!/bin/bash
# Builds demo.F90 (beside this file) with the objects of the repository's own build and runs it; nonzero: it printed what is wrong.
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/_build/prod
N=$(sed -n 's/^! processes: //p' "$D/demo.F90")
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
export LC_ALL=C OMP_NUM_THREADS=1 OMPI_FC=gfortran OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=false OMPI_MCA_hwloc_base_binding_policy=none
mpif90 -fallow-argument-mismatch -w -J. -I"$B/Modules" -o demo "$D/dm.F90" "$D/demo.F90" $(find "$B/src" -name '*.o' ! -name main.o) -lgomp || exit 3
timeout 120 mpirun -n "$N" ./demo < /dev/null
