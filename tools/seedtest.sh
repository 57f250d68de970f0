#!/bin/bash
# seedtest.sh ID...: patch applies, stable tests pass with it, demo passes/fails as it must, check catches it
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo "$w/repo"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  dd=$(mktemp -d /tmp/demo.XXXX); cp "$d"/* "$dd"/; chmod +x "$dd"/demo.sh
  (cd "$w/repo" && PYTHONDONTWRITEBYTECODE=1 bash "$dd/demo.sh" >/tmp/demo_ok.log 2>&1); a=$?
  git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  (cd "$w/repo" && PYTHONDONTWRITEBYTECODE=1 bash "$dd/demo.sh" >/tmp/demo_bad.log 2>&1); b=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    sed "s#/repo#$w/repo#g" /opt/vp/test.sh | sed "s#\$work$w/repo#\$work/repo#g" > "$w/test.sh"
    bash "$w/test.sh" "$w/o.json" >/dev/null 2>&1
    t=$(python3 - "$w/o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in b if x not in o]; print('tests-ok' if not m else 'TESTS-BROKEN %s'%m[:3])
P
)
  fi
  DEMOD_REPO="$w/repo" timeout 900 ./check "$p" > /tmp/seed_$id.log 2>&1; c=$?
  echo "$id [$p]: demo unchanged=$a patched=$b $t check-exit=$c $(grep -c VIOLATION /tmp/seed_$id.log) $(grep -o 'no-failing-input-found' /tmp/seed_$id.log | head -1)"
  rm -rf "$w" "$dd"
done
