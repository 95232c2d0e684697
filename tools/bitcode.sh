#!/bin/bash
# bitcode.sh OUTDIR : compile /repo's current sources to LLVM bitcode (OUTDIR/repo.bc); sources are copied, /repo is not written to
set -e
O=$1; R=${REPO:-/repo}; [ -n "$O" ] && mkdir -p "$O/src" && find "$O/src" -maxdepth 1 -type f -delete; cp "$R"/src/*.c "$R"/src/*.h "$R"/src/*.in.h "$R"/src/lexer.l "$R"/src/parser.y "$O/src/" 2>/dev/null || true
cd "$O/src"
ver=$(sed -n 's/^BVERSION *= *//p' "$R/Makefile" | head -1 | tr -d ' '); ver=${ver:-0.0}
sed "s/--BVERSION--/$ver/; s/--GLOBALCONF--/\/usr\/share\/boxes/" "$R/src/boxes.in.h" > boxes.h
bison --defines=parser.h -o parser.c parser.y 2>bison.log || { cat bison.log >&2; exit 1; }
flex -o lex.yy.c --header-file=lex.yy.h lexer.l 2>flex.log || { cat flex.log >&2; exit 1; }
pids=(); for f in *.c; do clang-18 -w -O1 -fno-pic -fno-pie -Xclang -disable-llvm-passes -g1 -Dmain=boxes_main -U_FORTIFY_SOURCE -I. -emit-llvm -c "$f" -o "${f%.c}.bc" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
llvm-link-18 *.bc -o all.bc && opt-18 -passes='mem2reg,simplifycfg' all.bc -o ../repo.bc
