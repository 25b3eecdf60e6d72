#!/bin/bash
# usage: mut.sh contract file 'sed expr' [file 'sed expr']...   (development aid: run a contract set on an edited copy)
c=$1; shift
d=$(mktemp -d /tmp/mutXXXX)
cp -a /repo/src /repo/tests $d/ 2>/dev/null
while [ $# -gt 0 ]; do
  cp $d/$1 $d/$1.orig; sed -i "$2" $d/$1
  diff $d/$1.orig $d/$1 | head -6 || true
  cmp -s $d/$1.orig $d/$1 && echo "NO CHANGE"
  shift 2
done
VP_REPO=$d timeout 900 python3-vt /verif/vcgen/dev.py $c | cut -c1-300
rm -rf $d
