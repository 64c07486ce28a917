#!/bin/bash
# Compiles demo.cpp against the built library and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/out/m"
M=/usr/lib/x86_64-linux-gnu/openmpi
g++ -I/usr/include/hdf5/openmpi -I$M/include -I$M/include/openmpi -I"$repo/lib" -I"$repo/include" -I"$here" -fopenmp -mavx2 -mfma -DUSE_PROP_RKN4 -mcmodel=medium -std=gnu++14 -O1 -w -rdynamic \
  "$here/demo.cpp" "$repo/_build/lib/libAxions.a" -o "$t/demo" -Wl,-rpath,$M/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi $M/lib/libmpi_cxx.so $M/lib/libmpi.so \
  -lfftw3 -lfftw3f -lfftw3_omp -lfftw3f_omp -lfftw3_mpi -lfftw3f_mpi /usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so -lcrypto -lcurl -lsz -lz -ldl -lm -lgsl -lgslcblas || exit 2
cd "$t"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive AXIONS_OUTPUT="$t/out/m" AXIONS_WISDOM="$t"
for n in $(sed -n 's/^\/\/ ranks: //p' "$here/demo.cpp"); do
  timeout 100 mpirun -np $n ./demo || exit 1
done
