#!/bin/bash
# calib.sh N SEED PROPS...: explore N scenarios of each property in one process
cd /verif && . env.sh
n=$1; seed=$2; shift 2
for p in "$@"; do (
 f=/tmp/o.$p.$seed
 ( time GODEBUG=clobberfree=1 timeout 800 ${BIN:-build/simrun} work -prop $p -seed $seed -from ${FROM:-0} -n $n 2>&1 ) > $f 2>&1
 echo "== $p $(grep -a ^I $f | tail -1) $(grep real $f)"; grep -a '^V' $f | python3 -c "
import sys,json
for l in sys.stdin:
    r=json.loads(l[2:]); v=r['violation']; print('V',r['scenario']['index'],v['class'],v['detail'][:900])"; grep -av '^I\|^V\|^S\|^$\|^real\|^user\|^sys' $f | head -20 | cut -c1-300 
 ) & 
 while [ $(jobs -r | wc -l) -ge 8 ]; do wait -n; done
done; wait
