# usage: tools/mk.sh ID  -> /tmp/ID.bc
B="-std=c++14 -Dstrtk_no_tr1_or_boost -I${STRTK_REPO:-/repo} -w $(grep -h '//@ flags' /verif/harness/$1.cpp | sed 's/.*flags//')"
/usr/lib/llvm-18/bin/clang++ $B -O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-threadsafe-statics -gline-tables-only -fno-builtin-memchr -fno-pic -fno-pie -emit-llvm -c /verif/harness/$1.cpp -o /tmp/$1.bc
[ -f /tmp/rt.bc -a /tmp/rt.bc -nt /verif/engine/rt.cpp ] || /usr/lib/llvm-18/bin/clang++ $B -O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-threadsafe-statics -gline-tables-only -fno-builtin-memchr -fno-pic -fno-pie -emit-llvm -c /verif/engine/rt.cpp -o /tmp/rt.bc
