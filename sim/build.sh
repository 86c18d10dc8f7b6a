#!/bin/bash
# build.sh OUTDIR : compiles the simulator against /repo's current working tree
set -u
OUT=$1; REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj"
JOBS=${JOBS:-$(nproc)}
DEFS="-DARMA_DONT_USE_WRAPPER -DENABLE_OPENMP -DENABLE_MPI -DM_PI=3.14159265358979323846 -DM_PI_2=1.57079632679489661923 -DDOUBLE_EPS=1e-8 -DDBL_MAX=__DBL_MAX__"
INC="-I$HERE/include -I$REPO/include -I$REPO/include/gwmodelpp -I$REPO/include/gwmodelpp/utils -I$REPO/include/gwmodelpp/spatialweight -I$REPO/src/gwmodelpp"
LIBF="-std=c++17 -O1 -g1 -fopenmp -fsanitize=thread --param=tsan-instrument-func-entry-exit=0 -fno-omit-frame-pointer -w"
SCNF="-std=c++17 -O1 -g1 -fopenmp -w"
cmds="$OUT/cmds"; : > "$cmds"
for f in $(cd "$REPO/src" && find gwmodelpp -name '*.cpp' ! -name '*uda*' ! -name 'cumat*' | sort); do
  o="$OUT/obj/lib_$(echo "$f" | tr '/' '_').o"
  echo "g++ $LIBF $DEFS $INC -c $REPO/src/$f -o $o" >> "$cmds"
done
for f in "$HERE"/scn/*.cpp; do echo "g++ $SCNF $DEFS $INC -I$HERE/rt -c $f -o $OUT/obj/scn_$(basename $f).o" >> "$cmds"; done
for f in "$HERE"/rt/*.cpp; do echo "g++ -std=c++17 -O2 -g1 -w -I$HERE/rt -c $f -o $OUT/obj/rt_$(basename $f).o" >> "$cmds"; done
# big translation units first
awk '{print ($0 ~ /Generalized|Basic|Multiscale|GWDR|GTWR|scn_/ ? 0 : 1) "\t" $0}' "$cmds" | sort -s -k1,1n | cut -f2- | xargs -d '\n' -P "$JOBS" -I{} bash -c '{} || { echo "FAILED: {}" >&2; exit 255; }' || exit 3
R=""
for s in posix_memalign malloc calloc realloc aligned_alloc free memcpy memmove memset dgemm_ dgemv_ dsyrk_ dpotrf_ dgetrf_ dgesdd_ dgesvd_ dgesv_ dposv_ dsysv_ dgels_ dgelsd_ dsyev_ dsyevd_; do R="$R --redefine-sym $s=simw_$s"; done
for o in "$OUT"/obj/lib_*.o "$OUT"/obj/scn_*.o; do echo "$o"; done | xargs -P "$JOBS" -n 1 objcopy $R || exit 3
# GSL is linked statically with its own allocation seam
objcopy --redefine-sym malloc=simg_malloc --redefine-sym calloc=simg_calloc --redefine-sym realloc=simw_realloc --redefine-sym free=simw_free /usr/lib/x86_64-linux-gnu/libgsl.a "$OUT/libgsl.a" || exit 3
g++ -no-pie -rdynamic -o "$OUT/gwsim" "$OUT"/obj/lib_*.o "$OUT"/obj/scn_*.o "$OUT"/obj/rt_*.o "$OUT/libgsl.a" /usr/lib/x86_64-linux-gnu/libgslcblas.a -lopenblas -ldl -lpthread -lm || exit 3
