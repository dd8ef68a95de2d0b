#!/bin/bash
# mut.sh <check ids, comma separated> <patch file | revert:commit> : runs checks
# against a scratch copy of /repo with a change applied.
set -u
ids=$1; p=$2
w=$(mktemp -d /tmp/mut_XXXXXX)
cp -a /repo/. $w/
cd $w
if [[ $p == revert:* ]]; then git revert -n ${p#revert:} >/dev/null 2>&1 || echo "REVERT FAILED"; else git apply $p || echo "APPLY FAILED"; fi
for i in ${ids//,/ }; do
  out=$(cd /verif && VERIF_REPO=$w timeout 900 /opt/venv/bin/python run.py $i 2>&1); rc=$?
  echo "$p $i rc=$rc $(echo "$out" | grep -m1 'violated clause' | cut -c1-150)"
done
rm -rf "$w"
