#!/bin/bash
# irtest.sh HARNESS.cc OUT.bc : quick manual IR build (the driver has its own)
B=/verif/build; mkdir -p $B/man $B/src
python3 /verif/tools/normsrc.py /repo/src $B/src
F="-O1 -Xclang -disable-llvm-passes -gline-tables-only -DVP_SYM -w"
CF="$F -std=gnu++17 -fno-builtin-memcmp -include cstdint -msse4.1 -maes -D_GLIBCXX_EXTERN_TEMPLATE=0 -I/verif/harness -I/verif/shim/io -I/verif/shim/thr -I$B/src -fno-threadsafe-statics"
clang $F -ffreestanding -fno-builtin -c -emit-llvm /verif/rt/rtc.c -o $B/man/rtc.bc || exit 1
objs=($B/man/rtc.bc)
for f in /verif/rt/rt.cc $1 $(find $B/src/frn -name '*.cc' ! -name 'exp_*'); do o=$B/man/$(echo $f | tr / _).bc; clang++ $CF -c -emit-llvm $f -o $o & objs+=($o); done; wait
$B/symir prep $2 "${objs[@]}"
