#!/bin/bash
# meta/catch.sh [ID...]: runs the check of each planted bug's property against it (in a copy laid over /repo in a mount namespace)
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX)
  cp -a /repo "$w/r"
  git -C "$w/r" apply "/verif/seeded/$s/patch.diff" || { echo "$s does not apply"; rm -rf "$w"; continue; }
  o=$(unshare -Urm bash -c "mount --bind $w/r /repo && cd /verif && ./check $p quick" 2>&1); rc=$?
  rm -rf "$w"
  echo "$s $p rc=$rc $(echo "$o" | grep -v 'e\.g\.' | sed -n 2,3p | tr '\n' ';' | cut -c1-160)"
done
