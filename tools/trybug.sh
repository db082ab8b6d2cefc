#!/bin/bash
# tools/trybug.sh ID [nocheck]: confirm a seeded bug in a private mount namespace
# with a scratch copy bound over /repo: builds, stable tests, demo, property check.
set -u
id=$1; dir=$(cd "$(dirname "$0")/.." && pwd); s=$dir/seeded/$id
if [ -z "${INNS:-}" ]; then
  c=$(mktemp -d /tmp/sb-XXXXXX); cp -a /repo/. "$c"
  INNS=$c unshare -m "$0" "$@"; rc=$?
  rm -rf "$c"; exit $rc
fi
mount --bind "$INNS" /repo || exit 9
cd /repo
t=$(mktemp -d /tmp/sd-XXXXXX); cp "$s"/* "$t"; rm -f "$t"/*.diff "$t"/meta.json
if [ "${SKIPBASE:-}" = "" ]; then timeout 300 bash "$t/demo.sh" >/tmp/$id.demo0 2>&1 || { echo "$id: DEMO FAILS UNPATCHED"; cat /tmp/$id.demo0 | tail -5; exit 1; }; fi
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/$id.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/$id.build; exit 1; }
timeout 300 bash "$t/demo.sh" >/tmp/$id.demo1 2>&1; d=$?
bash /opt/vp/test.sh /tmp/$id.json >/dev/null 2>&1
m=$(python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/%s.json'%sys.argv[1]))
miss=set(b['stable'])-set(o['passed']); print(len(miss), sorted(miss)[:3])
P
)
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
r=skipped
if [ "${2:-}" != nocheck ]; then (cd "$dir" && bin/check "$p" quick >/tmp/$id.check 2>&1; echo $? >/tmp/$id.rc); r="rc=$(cat /tmp/$id.rc) $(grep VIOLATION /tmp/$id.check | head -1)"; fi
echo "$id: demo(patched)=$d missing-tests=$m check[$p]: $r"
