#!/bin/bash
# trybug.sh ID...: confirm each planted bug on scratch copies of /repo and run its property's check against the copy
# (-j N: N at a time; NOCHECK=1: no check)
cd /verif
J=1; [ "$1" = -j ] && { J=$2; shift 2; }
one() {
  id=$1; . /opt/vp/env.sh
  d=/verif/seeded/$id; p=$($PY -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=$(mktemp -d /tmp/tb.XXXXXX); cp -a /repo $W/clean; cp -a /repo $W/bug
  git -C $W/bug apply $d/patch.diff || { echo "$id: does not apply"; return; }
  (cd $W/clean && bash $d/demo.sh >/tmp/demo.$id.clean 2>&1); a=$?
  (cd $W/bug && bash $d/demo.sh >/tmp/demo.$id.bug 2>&1); b=$?
  t=""
  for w in clean bug; do
    t="$t $w:$(cd $W/$w/simplegrid/tests && PYTHONPATH=$W/$w:$PYTHONPATH $PY -m pytest -q -p no:cacheprovider -p vp_leave_out_getobcs --rootdir=$W/$w --timeout=300 --continue-on-collection-errors --tb=no . 2>&1 | tail -1)"
  done
  s=$(date +%s); c=-
  [ -n "$NOCHECK" ] || { SX_REPO=$W/bug $PY run.py $p > /tmp/check.$id 2>&1; c=$?; }
  e=$(date +%s)
  rm -rf "$W"
  echo "$id $p: demo clean=$a bug=$b;$t; check exit=$c ($((e-s)) s) $(grep -c INCONCLUSIVE /tmp/check.$id 2>/dev/null) inconclusive; $(grep -m1 violated: /tmp/check.$id 2>/dev/null)"
}
export -f one
printf '%s\n' "$@" | xargs -P $J -I{} bash -c 'one {}'
