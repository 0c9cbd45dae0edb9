#!/bin/bash
# try.sh SEED [ID...]: runs checks against a copy of /repo with a planted bug
S=/verif/seeded/$1; shift
W=$(mktemp -d /tmp/try-XXXX); cp -a /repo/. $W/
git -C $W apply $S/patch.diff || exit 9
for id in ${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
  VERIF_REPO=$W python3 /verif/checks/$(echo $id | tr A-Z a-z).py > $W.log 2>&1; rc=$?
  echo "$(basename $S) $id rc=$rc $(grep -m1 VIOLATED $W.log | cut -c1-300)"; [ $rc = 2 ] && tail -5 $W.log
done
rm -rf $W $W.log
