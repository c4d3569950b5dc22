#!/bin/bash
# mut.sh PATCH|rev:COMMIT CHECK...: runs checks against a scratch copy of /repo with a patch applied
# (or with one commit reverted). For development only.
p=$1; shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a ${MUTBASE:-/repo} $d/repo
cd $d/repo
case $p in
 rev:*) git revert --no-commit ${p#rev:} >/dev/null || exit 3;;
 none) ;;
 *) git apply $p || exit 3;;
esac
for c in "$@"; do
  s=$(date +%s)
  VERIF_REPO=$d/repo VERIF_EVID=$d /verif/check $c >$d/out 2>$d/err; rc=$?
  echo "$c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^# ' $d/out | cut -c1-200)"
  [ $rc = 2 ] && tail -15 $d/err
done
rm -rf $d
