#!/bin/bash
# seedcheck.sh ID [notest] -- confirm a planted bug in a scratch copy: it builds, the stable tests pass with it,
# the demonstration fails with it and passes without it, and what this property's quick check says about it.
id=$1; d=/verif/seeded/$id; s=/tmp/seed.$id
rm -rf -- "/tmp/seed.$id"; cp -a /repo "$s"
git -C "$s" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seed.$id.ok 2>&1); a=$?
(cd "$s" && timeout 300 bash "$d/demo.sh" >/tmp/seed.$id.bad 2>&1); b=$?
echo "$id: demo unchanged=$a patched=$b"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && REPO=$s timeout 900 ./check check --property $prop --tier quick 2>&1 | grep -E "^VIOLATION|seed=|runs" | cut -c1-250 | head -4); 
if [ "$2" != notest ]; then
  sed "s#/repo#$s#g" /opt/vp/test.sh > /tmp/seed.$id.test.sh
  bash /tmp/seed.$id.test.sh /tmp/seed.$id.json >/dev/null 2>&1
  python3 /verif/tools/stable.py /tmp/seed.$id.json
fi
rm -rf -- "/tmp/seed.$id"
