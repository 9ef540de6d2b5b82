#!/bin/bash
# seedcheck.sh ID [PROPS...]: run the checks against a planted bug in a scratch copy
VD=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
W=$(mktemp -d /tmp/seedXXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/src"
git -C "$W/src" apply "$VD/seeded/$id/patch.diff" || { echo "$id: does not apply"; exit 2; }
P=("$@")
[ ${#P[@]} = 0 ] && P=($(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$VD/seeded/$id/meta.json"))
for p in "${P[@]}"; do
  t=$(date +%s)
  VERIF_SEED=1 VERIF_SRC=$W/src VERIF_BUILD=$W/b "$VD/check.sh" $p quick -dir "$W/out" >"$W/log" 2>&1
  rc=$?
  python3 - "$id" $p $rc "$(grep -a VIOLATION "$W/log" | head -1)" "$VD/tools/seed_results.json" <<'P'
import sys,json,re,os,fcntl
i,p,rc,line,f=sys.argv[1:]
with open(f+'.lock','w') as l:
    fcntl.flock(l,fcntl.LOCK_EX)
    d=json.load(open(f)) if os.path.exists(f) else {}
    m=re.search(r'replays/C\d+-(.*)-\d+-\d+\.json',line)
    d.setdefault(i,{})[p]=m.group(1) if rc=='1' and m else ('missed' if rc=='0' else 'error')
    json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
  echo "$id $p exit $rc $(($(date +%s)-t))s $(grep -a VIOLATION "$W/log" | head -1)"
done
