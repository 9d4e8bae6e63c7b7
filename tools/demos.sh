#!/bin/bash
# demos.sh ID... : only the demonstrations, clean and patched (no tests)
one() { id=$1; w=/tmp/pd/$id; rm -rf "/tmp/pd/$id"; mkdir -p $w; cp -a /repo $w/repo; cp -a ${V:-/verif}/seeded/$id/. $w/
export W=$w
unshare -Urm bash -c 'mount --bind $W/repo /repo; mkdir -p /mnt; mount --bind $W /mnt; mount -t tmpfs t /tmp; cd /repo
bash /opt/vp/build.sh > /mnt/b0.log 2>&1; bash /mnt/demo.sh > /mnt/demo0.log 2>&1; a=$?
git apply /mnt/patch.diff; bash /opt/vp/build.sh > /mnt/b1.log 2>&1 || echo BUILDFAIL; find /tmp -mindepth 1 -delete;  bash /mnt/demo.sh > /mnt/demo1.log 2>&1; echo "clean $a patched $?" > /mnt/res'
echo "$id $(cat $w/res)"; rm -rf "/tmp/pd/$id/repo"; }
export -f one
printf '%s\n' "$@" | xargs -P ${P:-6} -I{} bash -c 'one {}'
