#!/bin/bash
# runcheck.sh ID [PROP] : run the property's quick check against the planted bug ID,
# in a namespace where /repo is a patched copy and /verif a copy without seeded/.
id=$1; V=${V:-/verif}
w=/tmp/rc/$id
prop=${2:-$(python3 -c 'import json,sys;print(json.load(open("'$V'/seeded/'$id'/meta.json"))["property"])')}
rm -rf "/tmp/rc/$id"; mkdir -p $w
git clone -q /repo $w/repo; git -C /repo diff HEAD > $w/d; [ ! -s $w/d ] || git -C $w/repo apply $w/d; git -C $w/repo apply $V/seeded/$id/patch.diff || exit 9
git clone -q /verif $w/verif; cp -a $V/sim $V/check.py $V/known_findings.json $w/verif/; rm -rf "$w/verif/seeded"
export W=$w PROP=$prop
VERIF_SEED=${SEED:-1} VERIF_TIER=quick unshare -Urm bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mkdir -p /mnt; mount --bind $W /mnt; mount -t tmpfs t /tmp
cd /verif; s=$(date +%s)
timeout 900 python3 check.py $PROP > /mnt/log 2>&1; rc=$?
echo "rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /mnt/log)" > /mnt/res'
echo "$id $prop $(cat $w/res)"
mkdir -p /tmp/rclogs; cp $w/log /tmp/rclogs/$id.$prop.log
rm -rf "/tmp/rc/$id"
