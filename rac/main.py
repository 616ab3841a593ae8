"""usage: main.py PID --seed S --n N --budget SECONDS [--case NAME --index I] --out FILE"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--n', type=int, default=100)
    p.add_argument('--budget', type=float, default=60.)
    p.add_argument('--case')
    p.add_argument('--index', type=int)
    p.add_argument('--out')
    a = p.parse_args()
    for m in ('geometry', 'programs', 'dynamics', 'control'):
        importlib.import_module('cases_' + m)
    r = common.run_property(a.pid, a.seed, a.budget, a.n, a.case, a.index)
    s = json.dumps(r, indent=1)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(s)
    return 0


if __name__ == '__main__':
    sys.exit(main())
