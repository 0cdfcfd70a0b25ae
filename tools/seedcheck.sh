#!/bin/bash
# which checks report which planted bugs: seedcheck.sh [id...]   (works on scratch copies)
cd /verif/seeded
one() {
  i=$1; w=/tmp/wt_$i; rm -rf $w; mkdir -p $w; cp -a /repo/src $w/src; cp -a /repo/.git $w/.git 2>/dev/null
  git -C $w apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; rm -rf $w; return; }
  p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  VERIF_REPO=$w VERIF_EVIDENCE=$w/ev python3 /verif/sa/check.py $p > $w/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -m1 '^violated' $w/out | cut -c1-170 || true) $([ $rc = 1 ] || head -1 $w/out)"
  rm -rf $w
}
export -f one
ids="${@:-$(ls /verif/seeded)}"
echo $ids | tr ' ' '\n' | xargs -P 8 -I{} bash -c 'one {}' | sort
