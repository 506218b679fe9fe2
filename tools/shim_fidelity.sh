#!/bin/bash
# Builds and runs ALL of /repo's own unit tests (also the ones that need Elements/CCfits) against the stand-ins in
# /verif/shim. A development aid: it validates the stand-ins, and that fixes keep the behaviour the tests pin.
# Known to fail here: Npy_test and NpyMmap_test (need python numpy), NdSamplerGrid_test (needs a data file).
REPO=${1:-/repo}; D=$(mktemp -d); V=$(cd "$(dirname "$0")/.." && pwd)
INC=$(for m in AlexandriaKernel Configuration FilePool GridContainer Histogram KdTree MathUtils NdArray PhysicsUtils SOM SourceCatalog Table XYDataset; do echo -n " -I$REPO/$m"; done)
export REPO D V INC FL="-std=c++14 -w -O0 -include memory -include array -include cstdint -include boost/io/quoted.hpp -I$V/shim $INC"
one() { m=${1%%/*}; o=$D/$(echo $1 | tr / _).o; g++ $FL -I$REPO/$m/src/lib -c $REPO/$1 -o $o || echo FAIL $1; }
tst() { m=${1%%/*}; o=$D/T_$(echo $1 | tr / _)
  g++ $FL -DBOOST_TEST_DYN_LINK -DBOOST_TEST_MODULE=x -I$REPO/$m/src/lib -I$REPO/$m/tests/src -include boost/test/unit_test.hpp $REPO/$1 -o $o $D/liball.a \
   -lboost_unit_test_framework -lboost_filesystem -lboost_iostreams -lboost_program_options -lboost_regex -lboost_serialization -lboost_system -lboost_thread -lpthread -lgmock -lgtest 2>$o.err || { echo NOCOMPILE $1 $(grep -m1 -E 'error|undefined' $o.err); return; }
  (cd $D; timeout 120 $o > $o.log 2>&1) || echo TESTFAIL $1 $(grep -m3 -E 'error' $o.log); rm -f $o; }
export -f one tst
cd $REPO
find . -path ./_build -prune -o -path '*/src/*' -name '*.cpp' -print | grep -v /tests/ | grep -v /program/ | sed 's#^\./##' | xargs -P8 -I{} bash -c 'one {}'
ar rcs $D/liball.a $D/*.o
find . -path ./_build -prune -o -path '*/tests/src/*' -name '*_test.cpp' -print | sed 's#^\./##' | xargs -P8 -I{} bash -c 'tst {}'
rm -rf "$D"
