#!/bin/sh
# where does a scenario fork?  tools/forks.sh HARNESS ENTRY SECONDS "SRCS" [defs...]
H=$(cd "$(dirname "$0")/.." && pwd); R=${RK_REPO:-/repo}; T=$(mktemp -d); h=$1; e=$2; t=$3; s=$4; shift 4; b=
for f in $H/harness/$h $(for x in $s; do echo $R/src/$x; done); do o=$T/$(basename $f).bc; clang++-18 -emit-llvm -c -O1 -Xclang -disable-llvm-passes -gline-tables-only -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -DRK_SYMBOLIC -std=c++11 -w -fno-math-errno $STUBS -I$R/include -I$R/src -I$H/harness "$@" $f -o $o || exit 1; b="$b $o"; done
$H/build/engine --entry rk_main_$e --out $T/o.json --time $t --workers 1 --rt $H/build/rt.bc --forkstat $OPTS $b 2>&1 | cut -c1-300; grep -o ".paths.:[0-9]*,\|.reason.:[^,]*" $T/o.json; rm -rf $T
