#!/bin/bash
# confirm.sh ID [check] : in a private copy of /repo (bind-mounted in a mount namespace),
#   clean demo, patched build, stable tests, patched demo; with "check", also the property's check.
# Results: /tmp/pb/ID/result
id=$1; what=$2; V=${V:-/verif}
w=/tmp/pb/$id
rm -rf "/tmp/pb/$id"; mkdir -p $w/demo $w/verif
cp -a /repo $w/repo
cp -a $V/seeded/$id/. $w/demo/; rm -f $w/demo/patch.diff $w/demo/meta.json
cp $V/seeded/$id/patch.diff $w/patch.diff
export W=$w ID=$id WHAT=$what
unshare -Urm bash -c '
mount --bind $W/repo /repo
mkdir -p /mnt; mount --bind $W /mnt
mount -t tmpfs t /tmp
cd /repo
r=/mnt/result
: > $r
bash /opt/vp/build.sh > /mnt/b0.log 2>&1 || { echo "CLEAN-BUILD-FAILED" >> $r; exit; }
if [ "$WHAT" != checkonly ]; then
bash /mnt/demo/demo.sh > /mnt/demo0.log 2>&1; echo "clean demo: $?" >> $r
fi
git apply /mnt/patch.diff || { echo "APPLY-FAILED" >> $r; exit; }
if [ "$WHAT" != checkonly ]; then
bash /opt/vp/build.sh > /mnt/b1.log 2>&1 || { echo "PATCHED-BUILD-FAILED" >> $r; exit; }
find /tmp -mindepth 1 -delete
bash /mnt/demo/demo.sh > /mnt/demo1.log 2>&1; echo "patched demo: $?" >> $r
bash /opt/vp/test.sh /mnt/out.json > /mnt/t.log 2>&1
python3 - >> $r <<P
import json
o=json.load(open("/mnt/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
want=b if isinstance(b,list) else b.get("passed") or b.get("stable") or list(b.values())[0]
miss=[t for t in want if t not in set(o["passed"])]
print("tests:", "all pass" if not miss else "MISSING "+str(len(miss))+" "+str(miss[:4]))
P
fi
'
cat $w/result | sed "s/^/$id: /"
rm -rf "/tmp/pb/$id/repo"
