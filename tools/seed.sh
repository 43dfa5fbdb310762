#!/bin/bash
# seed.sh ID [PROP...]   try the change made in the scratch copy /tmp/sb (a 'cp -a /repo /tmp/sb'):
# write seeded/ID/patch.diff, build, run the tests, run demo.sh with and without the change and the
# checks of PROP (default: the property of meta.json), all with /tmp/sb mounted over /repo in a
# private mount namespace.  The real /repo is never touched.   KEEP=1: leave the change in /tmp/sb.
id=$1; shift
d=/verif/seeded/$id; mkdir -p $d
if [ -n "$(git -C /tmp/sb diff)" ]; then git -C /tmp/sb diff > $d/patch.diff
else git -C /tmp/sb apply $d/patch.diff || exit 2; fi
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply --check $d/patch.diff || exit 2
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo0.out 2>&1; echo "demo unchanged: $?"; tail -3 /tmp/demo0.out)
unshare -Urm bash -s <<X
mount --bind /tmp/sb /repo; cd /repo
bash /opt/vp/build.sh > /tmp/seed_build.out 2>&1; echo "build: \$?"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed_test.json > /dev/null 2>&1
python3 - <<'Y'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed_test.json'))['passed'])
print('tests: missing', len(b-p), sorted(b-p)[:5])
Y
fi
timeout 300 bash $d/demo.sh > /tmp/demo1.out 2>&1; echo "demo changed: \$?"; tail -3 /tmp/demo1.out
for p in $props; do s=\$SECONDS; timeout 900 bash /verif/run.sh \$p quick > /tmp/seed_\$p.out 2>&1; echo "\$p rc=\$? \$((SECONDS-s)) s"; grep -a VIOLATION /tmp/seed_\$p.out | head -3; done
X
[ -n "$KEEP" ] || git -C /tmp/sb checkout -q -- .
