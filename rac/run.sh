#!/bin/bash
# development helper: run.sh N BUDGET PID...
n=$1; bud=$2; shift 2
mkdir -p /tmp/w
for c in "$@"; do PYTHONPATH=/repo MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 timeout 900 /opt/venv/bin/python "$(dirname "$0")"/main.py $c --n $n --budget $bud --seed ${SEED:-1} --out /tmp/w/$c.json; python3 - <<P
import json; d=json.load(open('/tmp/w/$c.json')); print('$c',d['evaluations'],d['skipped'],d['by_case'],round(d['wall_s'],1))
for f in d['failures']+d['errors']: print('   ',f['case'],f['index'],f['message'],str(f.get('inputs',f.get('trace')))[-900:])
P
done
