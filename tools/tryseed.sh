#!/bin/bash
# Development aid: tryseed.sh ID [CHECK...] — applies seeded/ID to a scratch copy of /repo, runs the stable tests and
# the demonstration there, then the given checks (default: the property's own) against the copy.
id=$1; shift
src=/verif/seeded/$id
mut=/tmp/mut
[ -d $mut ] || cp -a /repo $mut
sed 's|/repo|/tmp/mut|g' /opt/vp/common.sh > /tmp/mut-common.sh; sed 's|/opt/vp/common.sh|/tmp/mut-common.sh|; s|/opt/vp/logs|/tmp/mut-logs|; s|/repo|/tmp/mut|g' /opt/vp/test.sh > /tmp/mut-test.sh
git -C $mut checkout -q -f ${BASE:-$(git -C /repo rev-parse HEAD)} 2>/dev/null || { git -C $mut fetch -q /repo HEAD && git -C $mut checkout -q -f FETCH_HEAD; }
git -C $mut checkout -q -- .
if [ "$SKIP" = "" ]; then
(cd $mut && bash $src/demo.sh >/tmp/demo0.log 2>&1); echo "demo on unchanged: $?"
fi
git -C $mut apply $src/patch.diff || exit 1
if [ "$SKIP" = "" ]; then
bash /tmp/mut-test.sh /tmp/mut-out.json >/tmp/mut-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/mut-out.json'))
base=b['stable']
bad=[t for t in base if t not in set(o['passed'])]
print('tests lost:',len(bad),bad[:6])
P
(cd $mut && bash $src/demo.sh >/tmp/demo1.log 2>&1); echo "demo with patch: $?"
fi
checks=${@:-$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")}
for c in $checks; do
  s=$(date +%s); VERIF_REPO=$mut VERIF_BUILD=/tmp/mutbuild python3 /verif/check.py $c >/tmp/chk.out 2>/tmp/chk.err; echo "$id $c exit $? ($(( $(date +%s) - s )) s) $(head -c 300 /tmp/chk.err | head -2)"
done
git -C $mut checkout -q -- .
