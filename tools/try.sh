#!/bin/bash
# try.sh <slot> <patch> <property>...: runs checks against a patched scratch copy of /repo.
# "-R <commit>" for the patch reverts that commit. Prints one line per property.
set -u
slot=$1; patch=$2; shift 2
M=/tmp/m$slot
if [ ! -d $M/repo ]; then mkdir -p $M; git clone -q /repo $M/repo; fi
git -C $M/repo fetch -q /repo HEAD && git -C $M/repo checkout -q -f FETCH_HEAD && git -C $M/repo clean -qfd -e target
mkdir -p $M/verif && cp -r /verif/check.py /verif/rules.json $M/verif/ && mkdir -p $M/verif/harness && cp -rp /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock $M/verif/harness/
sed -i "s|path = \"/repo\"|path = \"$M/repo\"|" $M/verif/harness/Cargo.toml
case $patch in
 -R*) git -C $M/repo revert -n ${patch#-R} || { echo "revert failed $patch"; exit 3; } ;;
 none) ;;
 *) git -C $M/repo apply $patch || { echo "apply failed $patch"; exit 3; } ;;
esac
find $M/repo/src -name '*.rs' -exec touch {} +
cd $M/verif
for p in "$@"; do
  t0=$(date +%s)
  timeout 900 python3 check.py check $p > out.$p 2>&1; rc=$?
  echo "$patch $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -a -m1 -n . out.$p | cut -c1-300)"
done
git -C $M/repo reset -q --hard
