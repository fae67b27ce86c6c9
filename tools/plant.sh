#!/bin/bash
# usage: plant.sh ID   confirm a planted change: builds, stable tests pass, demo 0 / nonzero; then which checks catch it
ID=$1; D=/verif/seeded/$ID; C=/tmp/pl_$ID
rm -rf "$C"; cp -a /repo "$C"; cd "$C" || exit 1
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "/tmp/pl_$ID"; exit 1; }
sed "s#/repo#$C#g" /opt/vp/build.sh > /tmp/pl_$ID.build.sh; bash /tmp/pl_$ID.build.sh || echo "$ID BUILD FAILS"
sed "s#/repo#$C#g" /opt/vp/test.sh > /tmp/pl_$ID.test.sh
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/pl_$ID.d0 2>&1; echo "$ID demo unpatched rc=$?")
sed "s#/repo#$C#g" $D/demo.sh > /tmp/pl_$ID.demo.sh; mkdir -p /tmp/pl_$ID.dd; cp $D/* /tmp/pl_$ID.dd/; for f in /tmp/pl_$ID.dd/*; do sed -i "s#/repo#$C#g" $f; done
(cd $C; timeout 300 bash /tmp/pl_$ID.dd/demo.sh >/tmp/pl_$ID.d1 2>&1; echo "$ID demo patched rc=$?"; tail -2 /tmp/pl_$ID.d1)
if [ "$2" != notest ]; then
bash /tmp/pl_$ID.test.sh /tmp/pl_$ID.json > /tmp/pl_$ID.log 2>&1; tail -1 /tmp/pl_$ID.log
fi
rm -rf "/tmp/pl_$ID" "/tmp/pl_$ID.dd" /tmp/pl_$ID.*.sh
