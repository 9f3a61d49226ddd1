#!/bin/bash
# Builds the simulator and, from /repo's working tree, the program's libraries.
#   build.sh BUILDDIR [REPO]
set -e
here=$(cd "$(dirname "$0")" && pwd)
B=$1; REPO=${2:-/repo}
mkdir -p "$B/o" "$B/h" "$B/t"
exec 9>"$B/log"
W="malloc free calloc realloc posix_memalign aligned_alloc memcpy memmove memset fopen fopen64 unlink remove rename
 abort exit _exit _Exit __assert_fail signal sigaction raise backtrace backtrace_symbols backtrace_symbols_fd rand srand
 random srandom drand48 srand48 time gettimeofday clock_gettime clock _ZNSt6chrono3_V212system_clock3nowEv
 _ZNSt6chrono3_V212steady_clock3nowEv usleep sleep nanosleep sched_yield pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock __cxa_guard_acquire __cxa_guard_release
 __cxa_guard_abort"
wrap=""; for w in $W; do wrap="$wrap -Wl,--wrap=$w"; done
# SAN=addr: gaps between the variables of stack frames and globals instead of race detection
if [ "$SAN" = addr ]; then
    : > "$B/gaps"
    SAN="-fsanitize=kernel-address -fasan-shadow-offset=0x200000000000 --param asan-stack=1 --param asan-globals=1 --param asan-instrumentation-with-call-threshold=0"
else SAN="-fsanitize=thread --param tsan-instrument-func-entry-exit=0"; fi
PF="-std=c++11 -g1 -fopenmp -fPIC -fno-gnu-unique $SAN -U_FORTIFY_SOURCE -w -include cstdint"
PO=${VSIM_OPT:--O1}
SRCF="$PF $PO -Dmain=tycho_main -DASSERT_ON=1 -DUSE_PETSC=1 -I$here/sim/inc -I$REPO/src"
TF="$PF $PO -Dmain=tool_main -include cstring -I$here/sim/inc -I$REPO/src"
J="$B/jobs"; : > "$J"
for f in core mem omp mpi petsc wraps mesh ref oracle gen drvcheck main; do
    o=-O1; case $f in mem|core|ref|omp) o=-O2;; esac
    echo "g++ -std=c++17 $o -g1 -w -I$here/sim/inc -c $here/sim/host/$f.cc -o $B/h/$f.o" >> "$J"
done
for f in "$REPO"/src/*.cc; do
    echo "g++ $SRCF -c $f -o $B/o/$(basename "$f" .cc).o" >> "$J"
done
for f in "$here"/sim/drv/*.cc; do
    [ -e "$f" ] || continue
    n=$(basename "$f" .cc)
    echo "g++ $SRCF -c $f -o $B/o/drv_$n.o || echo driver $n does not compile" >> "$J"
done
if [ -z "$VSIM_NOTOOLS" ]; then
for n in SerialMesh ParallelMesh Comm Assert; do
    [ -e "$REPO/src/$n.cc" ] || continue
    case $n in SerialMesh|ParallelMesh) echo "g++ $TF -DPARALLEL_MESH_READ_SERIAL_ONLY -c $REPO/src/$n.cc -o $B/t/src_$n.o" >> "$J";; esac
    echo "g++ $TF -c $REPO/src/$n.cc -o $B/t/par_$n.o" >> "$J"
done
for n in PartitionColumns PartitionMetis RefineSerialMesh SerialMeshInfo; do
    [ -e "$REPO/util/$n.cc" ] && echo "g++ $TF -DPARALLEL_MESH_READ_SERIAL_ONLY -c $REPO/util/$n.cc -o $B/t/$n.o" >> "$J"
done
[ -e "$REPO/util/ParallelMeshInfo.cc" ] && echo "g++ $TF -c $REPO/util/ParallelMeshInfo.cc -o $B/t/ParallelMeshInfo.o" >> "$J"
fi
# longest first
sort -t' ' -k1,1 "$J" > /dev/null
xargs -a "$J" -d '\n' -P 10 -I{} sh -c '{}' >&9 2>&1 || { echo "build failed:"; tail -40 "$B/log"; exit 2; }
g++ -rdynamic -o "$B/vsim" "$B"/h/*.o -ldl >&9 2>&1 || { tail -40 "$B/log"; exit 2; }
LD="g++ -shared -Wl,-Bsymbolic $wrap -fno-sanitize=all"
$LD -o "$B/libsweep.so" "$B"/o/*.o >&9 2>&1 || { tail -40 "$B/log"; exit 2; }
for i in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do cp "$B/libsweep.so" "$B/libsweep$i.so"; done
if [ -z "$VSIM_NOTOOLS" ]; then
M="$B/t/src_SerialMesh.o $B/t/src_ParallelMesh.o"
for n in PartitionColumns RefineSerialMesh SerialMeshInfo; do $LD -o "$B/lib$n.so" "$B/t/$n.o" $M >&9 2>&1 || true; done
$LD -o "$B/libPartitionMetis.so" "$B/t/PartitionMetis.o" $M -lmetis >&9 2>&1 || true
$LD -o "$B/libParallelMeshInfo.so" "$B/t/ParallelMeshInfo.o" $B/t/par_*.o >&9 2>&1 || true
[ ! -e "$B/libParallelMeshInfo.so" ] || for i in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do cp "$B/libParallelMeshInfo.so" "$B/libParallelMeshInfo$i.so"; done
fi
