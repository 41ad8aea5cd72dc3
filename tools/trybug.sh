#!/bin/bash
# trybug.sh ID [check args]: confirm a planted bug (tests pass, demo 0/nonzero) and run its property's check against it.
# Works on /repo itself and undoes the patch straight afterwards.
id=$1; shift; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
export PYTHONDONTWRITEBYTECODE=1
trap 'git -C /repo checkout -q -- .' EXIT
bash "$d/demo.sh" >/tmp/tb_clean.txt 2>&1; c=$?
git apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
bash "$d/demo.sh" >/tmp/tb_bug.txt 2>&1; b=$?
t=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/tb_out.json >/dev/null 2>&1
t=$(/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/tb_out.json'))
want=set(b.get('stable') or b.get('tests') or b.get('passed') or b)
got=set(o.get('passed') if isinstance(o.get('passed'),list) else [k for k,v in o.items() if v in('passed','pass')])
print("missing", sorted(want-got)[:3] if want-got else 0)
P
); fi
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$(date +%s); (cd /verif && ./check.py "${PROP:-$prop}" --no-evidence "$@" >/tmp/tb_check.txt 2>&1); k=$?
echo "$id demo clean=$c bug=$b tests: $t check $prop exit=$k $(( $(date +%s)-s ))s $(grep -m1 -E '^VIOLATION' /tmp/tb_check.txt)"
