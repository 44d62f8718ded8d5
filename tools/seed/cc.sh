#!/bin/bash
# Compiles demo.cpp beside this script against the library built in /repo/_build and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OPENBLAS_NUM_THREADS=1
g++ -O1 -DNDEBUG -std=gnu++20 -fopenmp -w \
 -DDUNE_ISTL_VERSION_MAJOR=2 -DDUNE_ISTL_VERSION_MINOR=9 -DDUNE_ISTL_VERSION_REVISION=0 -DHAS_CEREAL=1 -DHAS_HDF5=1 \
 -DHAS_ISTL=1 -DHAS_SUPERLU=1 -DHAS_UMFPACK=1 -DHAVE_NULLPTR=1 -DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_UMFPACK=1 \
 '-DISTL_VERSION="2.9.0"' -DPROFILE_LEVEL=3 -DReal=double -DSUPERLU_INT_TYPE=int -DSUPERLU_MIN_VERSION_4_3=1 \
 -DSUPERLU_MIN_VERSION_5=1 -DSUPERLU_NTYPE=1 -DSUPERLU_POST_2005_VERSION=1 -DUSE_CBLAS=1 -DUSE_OPENMP=1 -DepsZ=1.0e-12 \
 -I"$R/_build" -I"$R/Apps/Utils" -I"$R/3rdparty" -I"$R/src/ASM" -I"$R/src/LinAlg" -I"$R/src/SIM" -I"$R/src/Utility" -I"$R/src/Eig" \
 -I"$R/3rdparty/autodiff" -I"$R/3rdparty/expreval" -I"$D" \
 -isystem /usr/include/superlu -isystem /usr/include/hdf5/serial -isystem /usr/include/suitesparse \
 "$D/demo.cpp" -o "$T/demo" "$R/_build/lib/libIFEMAppUtils.a" "$R/_build/lib/libIFEM.a" -Wl,--unresolved-symbols=ignore-all \
 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lopenblas -lm -ldl -larpack -ltinyxml2 -lgfortran -lquadmath \
 /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lgomp -lpthread -lsuperlu -lumfpack -lsuitesparseconfig -ldunecommon || exit 3
cd "$T" && timeout 120 ./demo
