#!/bin/bash
# plant.sh ID...: validates seeded/<ID> against /repo (tests pass with the patch,
# the demonstration tells the two apart) and runs its property's quick check.
# Applies the patch in /repo and always undoes it.
out=${PLANT_OUT:-/tmp/plant/results}
mkdir -p "$out"
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  r="$id $p"
  if ! git -C /repo apply --check "$d/patch.diff" 2>/dev/null; then echo "$r patch does not apply" | tee "$out/$id"; continue; fi
  if [ -z "$SKIP_VALID" ]; then
    bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$r base build fails"; exit 1; }
    bash "$d/demo.sh" > "$out/$id.demo0" 2>&1; a=$?
    git -C /repo apply "$d/patch.diff"
    if bash /opt/vp/test.sh "$out/$id.json" > "$out/$id.test" 2>&1; then :; fi
    n=$(python3 -c "
import json;s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(len(s-set(json.load(open('$out/$id.json'))['passed'])))")
    bash "$d/demo.sh" > "$out/$id.demo1" 2>&1; b=$?
    r="$r | demo $a/$b, stable tests failing: $n"
  else
    git -C /repo apply "$d/patch.diff"
  fi
  if [ -z "$SKIP_CHECK" ]; then
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check "$p" > "$out/$id.check" 2>&1; c=$?
    v=$(grep -c "^VIOLATION property=$p" "$out/$id.check")
    r="$r | check exit $c, $v violation lines, $(( $(date +%s) - s )) s"
  fi
  git -C /repo checkout -q -- .
  echo "$r" | tee "$out/$id"
done
