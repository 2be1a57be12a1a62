# try.sh file entry [opts] -- defs
f=$1; e=$2; shift 2; o=(); d=(); cur=o
for a in "$@"; do if [ "$a" = -- ]; then cur=d; elif [ $cur = o ]; then o+=("$a"); else d+=("$a"); fi; done
b=/tmp/t_$(basename $f .cpp).$$; trap "rm -f $b.*" EXIT
R=${REPO:-/repo}
/usr/bin/clang++-18 -O1 -gline-tables-only -std=c++14 -w -emit-llvm -c -fno-vectorize -fno-slp-vectorize -fno-jump-tables -D_GLIBCXX_ASSERTIONS -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,return,unreachable -fsanitize-trap=all -DSYMX_ENGINE=1 -I/verif/engine -I/verif/harness -I/verif/harness/mockasio -I$R/include "${d[@]}" /verif/harness/$f -o $b.h.bc || exit 1
x=""; case "${d[*]}" in *POSIX_MODEL*) /usr/bin/clang++-18 -O1 -gline-tables-only -std=c++14 -w -emit-llvm -c -fno-vectorize -fno-slp-vectorize -fno-jump-tables -DSYMX_ENGINE=1 -I/verif/engine -I/verif/harness "${d[@]}" /verif/harness/posix_model.cpp -o $b.p.bc || exit 1; x=$b.p.bc;; esac
llvm-link-18 $b.h.bc $x /verif/build/rt.bc -o $b.bc || exit 1
for en in ${e//,/ }; do
/verif/build/symx $b.bc --entry $en --out $b.json --max-time 60 --max-errors 4 "${o[@]}" || exit 1
python3 - $b.json $en <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print(sys.argv[2],'paths',d['paths'],'steps',d['steps'],'time',d['time'],'z3',d['solver']['z3_queries'],round(d['solver']['z3_time'],2),'asserts',d['asserts'],d['asserts_symbolic'],'reach',d['reach'],'INC',d['inconclusive'])
for e in d['errors']: print('  ERR',e['kind'],e['msg'],e['where'],e['inputs'][:40],e['sched'][:60])
P
done
