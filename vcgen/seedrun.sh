#!/bin/bash
# development aid: seedrun.sh <seed id>: the contract set of a seeded change's property on a copy with the change applied
d=$(mktemp -d /tmp/srXXXX); git -C /repo archive HEAD | tar x -C $d; (cd $d; git init -q; git apply /verif/seeded/$1/patch.diff)
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'].lower())")
VP_REPO=$d timeout 900 python3-vt /verif/vcgen/dev.py $p 2>&1 | grep -v inlined | cut -c1-300
rm -rf $d
