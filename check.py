"""Checks one property of /repo's current tree.

    python3-vt check.py C01 [--tier quick|thorough] [--budget S] [--only TEXT] [--strict]

exit 0: held on everything explored;  exit 1: VIOLATION line(s).
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    p.add_argument('--budget', type=float)
    p.add_argument('--only')
    p.add_argument('--jobs', type=int)
    p.add_argument('--strict', action='store_true', help='also fail on incomplete or unreproduced results (development)')
    a = p.parse_args()
    from props import tasks
    from sx import runner

    budget = a.budget or {'quick': 90, 'thorough': 780}[a.tier]
    spec = tasks.PROPERTIES[a.property]
    sys.exit(runner.run_property(a.property, tasks.select(spec, a.tier), {
        'bounds': spec['bounds'], 'assumptions': tasks.ASSUMPTIONS + spec.get('assumptions', []),
    }, a.tier, budget, strict=a.strict, jobs=a.jobs, only=a.only))


main()
