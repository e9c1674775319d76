#!/bin/bash
# seedtest.sh ID [PROP...]: try the planted bug seeded/ID in a private mount namespace, on copies of /repo and /verif:
# builds, stable tests, demonstration with and without the change, then the quick checks of the named properties.
id=$1; shift
S=/tmp/seed.$id; rm -rf "$S"; mkdir -p $S; cp -a /repo $S/repo; mkdir $S/verif
V=${V:-/verif}; (cd $V && tar cf - --exclude=./work --exclude=./.git --exclude=./seeded .) | tar xf - -C $S/verif
cp -a $V/seeded/$id $S/demo; P=$V/seeded/$id/patch.diff; cp $P $S/p.diff
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
unshare -m bash -s -- "$S" "$id" "$@" <<'X'
S=$1; id=$2; shift 2
mount --bind $S/repo /repo; mount --bind $S/verif /verif; cd /repo
bash /opt/vp/build.sh >$S/b0.log 2>&1 || echo "$id: clean build failed"
timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1; r0=$?
git apply $S/p.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/test.sh $S/o.json >$S/t.log 2>&1; t=$(tail -1 $S/t.log)
timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1; r1=$?
echo "$id: tests: $t; demo clean=$r0 planted=$r1"
cd /verif
for p in "$@"; do
  timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $p quick >$S/c.$p.log 2>&1; rc=$?
  echo "$id: $p rc=$rc $(grep -m1 -o 'VIOLATION.*' $S/c.$p.log | cut -c1-200) $(grep -m1 'CheckError\|rror:' $S/c.$p.log | cut -c1-200)"
done
X
for f in d0 d1; do [ -n "$SHOW" ] && { echo "--- $f"; tail -8 $S/$f.log; }; done
[ -z "$KEEP" ] && rm -rf "$S"
