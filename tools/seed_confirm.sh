#!/bin/bash
# seed_confirm.sh ID [check ids]: demo on the clean tree, then with the patch; stable tests; checks.
id=$1; shift; d=/verif/seeded/$id
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
cd /repo
bash $d/demo.sh > /tmp/demo_clean.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash $d/demo.sh > /tmp/demo_bug.log 2>&1; b=$?
t=skipped
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh > /tmp/b.log 2>&1 && bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1; t=$(python3 /tmp/cmp.py); fi
c=""
for k in "$@"; do (cd /verif && ./check $k quick > /tmp/chk_$k.log 2>&1); c="$c $k=$?"; done
git checkout -q -- .
echo "$id: demo clean=$a bug=$b ($(tail -1 /tmp/demo_bug.log | cut -c1-150)) tests: $t checks:$c"
