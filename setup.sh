#!/bin/bash
# builds the symbolic executor and the C models into /verif/build
set -e
cd "$(dirname "$0")"; mkdir -p build
engine/build.sh build
clang-18 -w -O1 -fno-pic -fno-pie -fno-builtin -fno-vectorize -fno-slp-vectorize -g1 -U_FORTIFY_SOURCE -Imodels -emit-llvm -c models/models.c -o build/models.bc
