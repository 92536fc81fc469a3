#!/bin/bash
# Not a check: builds the repository's own tests of the Kokkos part against the stand-in in shim/, as evidence
# that the stand-in behaves like Kokkos. Usage: shimtest.sh [scratch dir]
V=$(cd "$(dirname "$0")/.." && pwd); W=${1:-/tmp/shimtest}; R=/repo
rm -rf "$W"; mkdir -p "$W/gen/NeoFOAM" "$W/o" "$W/t"
(cd $R/include && find NeoFOAM -name '*.hpp' | grep -v "petsc\|ginkgo\|sundials\|rungeKutta\|mpi/\|communicator" | sort | sed 's/.*/#include "&"/') > "$W/gen/NeoFOAM/NeoFOAM.hpp"
export F="-std=c++20 -O1 -g1 -DKOKKOS_ENABLE_THREADS -DKOKKOS_ENABLE_CUDA -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 -w -I$W/gen -I$V/shim -I$V/stub -I$R/include -I$R/test/catch2 -I$R/test" W R
find $R/src -name '*.cpp' | grep -v "ginkgo\|mpi/\|communicator\|expression\|rungeKutta" | xargs -P8 -I{} sh -c 'g++ $F -c {} -o $W/o/$(echo {} | tr / _).o || echo FAIL {}'
ar rcs "$W/libnf.a" "$W"/o/*.o
(cd $R/test && find . -name '*.cpp' | grep -v "catch2\|mpi\|petsc\|ginkgo\|ungeKutta\|communicator") | xargs -P8 -I{} sh -c 'g++ $F $R/test/{} $R/test/catch2/test_main.cpp $W/libnf.a -lCatch2 -o $W/t/x$(echo {} | tr / _).x || echo FAIL {}'
for s in 0 1; do for o in 0 1 5; do for f in "$W"/t/*.x; do
  SHIM_ORDER=$o SHIM_SPLIT=$s timeout 60 "$f" > "$W/out" 2>&1 || { echo "split=$s order=$o $f"; tail -30 "$W/out" | head -40; }
done; done; done
