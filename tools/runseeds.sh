#!/bin/bash
# runseeds.sh [ID...]: for each planted bug, runs the check of its property with a changed copy of /repo mounted in
# its place (a mount namespace of its own; four at a time, each with its own build folder under /tmp/rs)
mkdir -p /tmp/rs
one() {
  d=$1; slot=$2; S=/tmp/rs/s$slot
  mkdir -p $S/repo $S/ev
  rsync -a --delete --exclude target --exclude .git /repo/ $S/repo/ 2>/dev/null || { find $S/repo -mindepth 1 -delete; (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C $S/repo; }
  [ -d $S/build ] || cp -a /verif/build $S/build
  (cd $S/repo && patch -s -p1 < /verif/seeded/$d/patch.diff) || { echo "$d: does not apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  s=$(date +%s)
  out=$(unshare -Urm bash -c "mount --bind $S/repo /repo && mount --bind $S/ev /verif/evidence && cd /verif && KVC_BUILD=$S/build timeout 900 ./check.sh $p quick" 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
}
L=(${@:-$(ls /verif/seeded)})
for k in 0 1 2; do
  ( n=$k; while [ $n -lt ${#L[@]} ]; do one ${L[$n]} $k; n=$((n+3)); done ) &
done
wait
