#!/bin/bash
# tryseed.sh ID [CHECK...]: build, tests, demo and checks on a patched copy, bind-mounted over /repo in a private namespace
id=$1; shift
checks=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
wt=/tmp/wt_$id; rm -rf "$wt"; cp -a ${REPO_SRC:-/repo} "$wt"
git -C "$wt" apply /verif/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
rm -rf /tmp/demo_$id; cp -a /verif/seeded/$id /tmp/demo_$id
(cd /repo; bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/clean.log 2>&1; echo "$id demo clean rc=$?")
rep=$(mktemp -d); cp -a /opt/vp/reports/. $rep/ 2>/dev/null
cp -a /verif/evidence /tmp/ev_$id
unshare -Urm bash -c "
mount --bind $wt /repo; mount --bind $rep /opt/vp/reports 2>/dev/null; mount --bind /tmp/ev_$id /verif/evidence
cd /repo; bash /tmp/demo_$id/demo.sh > /tmp/demo_$id/patched.log 2>&1; echo \"$id demo patched rc=\$?\"; tail -2 /tmp/demo_$id/patched.log
if [ -z \"$NOTEST\" ]; then cd /tmp; bash /opt/vp/test.sh /tmp/demo_$id/t.json 2>&1 | tail -1; fi
for c in $checks; do timeout 900 bash /verif/check.sh \$c 2>&1 | cut -c1-250 | tail -${TAIL:-4}; done
"
rm -rf "$wt" "$rep" /tmp/ev_$id
