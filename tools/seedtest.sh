#!/bin/bash
# tools/seedtest.sh ID...: which checks catch a planted bug (scratch worktree, not /repo)
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/seedwt_$id
  git -C /repo worktree add -q -f --detach $W HEAD || exit 2
  if ! git -C $W apply $S/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; git -C /repo worktree remove -f $W; continue; fi
  LIB=$(VERIF_REPO=$W python3 -B /verif/tools/build_lib.py plain | tail -1)
  CLEAN=$(python3 -B /verif/tools/build_lib.py plain | tail -1)
  (cd /repo; MD_LIB=$CLEAN bash $S/demo.sh >/tmp/seed_$id.clean 2>&1); c=$?
  (cd /repo; MD_LIB=$LIB bash $S/demo.sh >/tmp/seed_$id.bug 2>&1); b=$?
  P=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  out=""
  for p in $P; do
    (cd /verif; VERIF_REPO=$W VERIF_SEED=${SEED:-1} python3 -B check.py $p quick >/tmp/seed_$id.$p 2>&1); r=$?
    out="$out $p=$r"
  done
  echo "$id demo clean=$c bug=$b checks:$out"
  git -C /repo worktree remove -f $W
done
