#!/bin/bash
# usage: bash tools/seedcheck.sh [-j N] [ID...]   runs each planted change's own check against it, in copies of /repo and /verif
# (the copies' harness looks for the code in the copy). Extra checks: CHECKS="T01 H01" runs these instead of the property's own.
cd /verif
j=3; [ "$1" = -j ] && { j=$2; shift 2; }
one() {
  d=$1; w=$(mktemp -d /tmp/sc_XXXXXX)
  cp -a /repo "$w/repo"; mkdir "$w/verif"; tar -C /verif --exclude=./seeded --exclude=./.git --exclude=./evidence -cf - . | tar -C "$w/verif" -xf -; mkdir -p "$w/verif/evidence"
  sed -i "s#'/repo#'$w/repo#g" "$w/verif/harness/run.py" "$w/verif/harness/roundtrip.py"
  git -C "$w/repo" apply /verif/seeded/$d/patch.diff || echo "$d NOAPPLY"
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")}; do
    s=$(date +%s); o=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash "$w/verif/check.sh" $p 2>&1); r=$?
    echo "$d $p exit=$r $(( $(date +%s)-s ))s $(grep -c "VIOLATION property=$p" <<<"$o") $(grep -m1 VIOLATION <<<"$o" | cut -c1-150)"
    [ $r = 0 ] || [ $r = 1 ] || tail -5 <<<"$o"
  done
  case "$w" in /tmp/sc_*) rm -rf "$w";; esac
}
export -f one
printf '%s\n' ${*:-$(ls seeded)} | xargs -P "$j" -I{} bash -c 'one {}'
