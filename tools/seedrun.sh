#!/bin/bash
# seedrun.sh [NAME...]: apply each planted bug to a scratch copy of /repo, run the check of its property on it
# CHECKS="C01 C02" overrides the check, PAR how many run at once, SEED the seed
cd /verif/seeded || exit 1
one() {
  n=$1
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  cp -a /repo "$w/repo"
  if git -C "$w/repo" apply "/verif/seeded/$n/patch.diff"; then
    for c in ${CHECKS:-$p}; do
      s=$(date +%s)
      out=$(cd /verif && VERIF_REPO=$w/repo VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py "$c" quick 2>&1); rc=$?
      v=$(printf '%s\n' "$out" | grep -c "^VIOLATION property=$c")
      if [ $rc = 1 ] && [ "$v" -gt 0 ]; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="BROKEN rc=$rc"; fi
      echo "$n $c: $r ($v, $(( $(date +%s) - s )) s)"
    done
  else
    echo "$n: does not apply"
  fi
  rm -rf "$w"
}
export -f one
names=("$@"); [ ${#names[@]} = 0 ] && names=(*)
printf '%s\n' "${names[@]}" | xargs -P "${PAR:-2}" -I{} bash -c 'one {}'
