#!/bin/bash
# plant.sh ID: confirms the planted bug whose modified copy of /repo is
# /tmp/plant/ID and whose demo is /verif/seeded/ID; writes patch.diff.
set -u
id=$1; W=/tmp/plant/$id; S=/verif/seeded/$id
git -C "$W" diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "$id: empty diff"; exit 1; }
git -C /repo apply --check "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
if [ ! -f "$S/demo.sh" ]; then
cat > "$S/demo.sh" <<'X'
#!/bin/bash
export PYTHONPATH=$PWD/python/dp_accounting:$PWD/learning PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
X
chmod +x "$S/demo.sh"; fi
(cd /repo && bash "$S/demo.sh" >/tmp/plant/$id.d0 2>&1) || { echo "$id: demo fails on base"; tail -5 /tmp/plant/$id.d0; exit 1; }
(cd "$W" && bash "$S/demo.sh" >/tmp/plant/$id.d1 2>&1) && { echo "$id: demo passes with bug"; tail -5 /tmp/plant/$id.d1; exit 1; }
if [ "${2:-}" != notest ]; then
( . /opt/vp/env.sh; export PYTHONPATH=$W/python/dp_accounting:$W/learning; cd "$W"
/opt/venv/bin/python -m pytest -q -c /dev/null --rootdir="$W" -p no:cacheprovider -o python_files='*_test.py' -n 8 --timeout=300 --continue-on-collection-errors --ignore=learning/clustering/clustering_algorithm_test.py -o junit_family=xunit2 --junitxml=/tmp/plant/$id.xml python/dp_accounting learning >/tmp/plant/$id.log 2>&1
python3 /opt/vp/results.py /tmp/plant/$id.json "junit:/tmp/plant/$id.xml"
python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant/%s.json'%sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
bad=[t for t in st if t not in set(r['passed'])]
print(sys.argv[1],'stable tests broken:',len(bad)); print('\n'.join(bad[:8]))
sys.exit(1 if bad else 0)
P
) || exit 1; fi
echo "$id: OK"
