#!/bin/bash
# native.sh SRCDIR OUTDIR VARIANT : builds the program natively (plain | asan) from the sources prepared by bitcode.sh
set -e
S=$1; O=$2; V=$3; H=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "$O/$V"; cd "$S"
case $V in plain) F="-O1 -g";; asan) F="-O1 -g -fsanitize=address -fno-omit-frame-pointer";; esac
pids=(); for f in *.c; do clang-18 -w $F -U_FORTIFY_SOURCE -I. -c "$f" -o "$O/$V/${f%.c}.o" & pids+=($!); done
clang-18 -w $F -c "$H/native/shim.c" -o "$O/$V/zz_shim.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
clang-18 $F "$O/$V"/*.o -o "$O/boxes-$V" -Wl,--wrap=fopen,--wrap=stat,--wrap=access,--wrap=opendir,--wrap=locale_charset,--wrap=time,--wrap=clock,--wrap=getpid,--wrap=getppid,--wrap=rand,--wrap=random,--wrap=srand,--wrap=srandom,--wrap=gettimeofday,--wrap=clock_gettime -lunistring -lpcre2-32 -lncurses
