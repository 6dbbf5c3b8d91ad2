#!/bin/bash
# seedtry.sh ID [notest] : confirm a planted change in a scratch copy of /repo and run its property's check on it
id=$1; s=/verif/seeded/$id; c=/tmp/seed_$id; l=/tmp/seed_$id.log
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
mkdir -p "$c"; cp -a /repo/. "$c"/
git -C "$c" apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
ns() { unshare -m --propagation private bash -c 'mount --bind "$0" /repo && exec "$@"' "$c" "$@"; }
t=skipped
if [ "$2" != notest ]; then
  ns bash /opt/vp/build.sh > "$l" 2>&1 || { echo "$id: build failed"; }
  ns bash /opt/vp/test.sh "$l.json" >> "$l" 2>&1
  t=$(python3 -c "
import json
a=json.load(open('/opt/vp/BASELINE.json'));b=json.load(open('$l.json'))
s=a['stable']
print('missing:',sorted(set(s)-set(b['passed'])) or 'none')")
fi
(cd /repo && bash "$s/demo.sh" > "$l.d0" 2>&1); d0=$?
(cd "$c" && bash "$s/demo.sh" > "$l.d1" 2>&1); d1=$?
r=$(VERIF_REPO=$c python3 /verif/run.py "$prop" 2>&1 | tail -3 | tr '\n' ' ' | cut -c1-300)
echo "$id ($prop): tests $t; demo clean $d0 patched $d1; check: $r"
case "$c" in /tmp/seed_*) rm -rf "$c";; esac
