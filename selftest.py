"""Checks the installation and validates the models against CPython: every path
of every model harness is replayed with its witness on the real modules.

    python3-vt selftest.py      exit 0: all agree
"""
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)

FORMATS = ['B', '>h', 'Bxh', '@BHI', '<BQ', '3s', '0s', '4p', '1p', '>c', '?', 'e', '<f', '>d', '2B?', 'b3xi', '=qB',
           '!HI', '@bq', '300s', '2H', 'xx', '', '>3sB', '0H', '@cH', '2e']


def tasks():
    from sx.runner import Task

    # SX_SELFTEST_S=60 explores the slowest three (half floats) completely
    T = lambda fn, **p: Task('modeltest', fn, p, task_s=int(os.environ.get("SX_SELFTEST_S", "8")), witnesses=100000, loop=60, max_paths=1500)
    out = [T('text', codec=c, n=n) for c in ('utf-8', 'ascii', 'latin-1', 'utf-16-le', 'utf-32-be', 'utf-16', 'utf-32', 'utf-8-sig', 'cp1252', 'cp437', 'iso8859-15', 'koi8-r', 'cp037', 'iso8859-7')
            for n in (0, 1, 2)]
    out += [T('decode', codec=c, n=n) for c, n in (('utf-8', 4), ('ascii', 3), ('latin-1', 3), ('utf-16-le', 6), ('utf-16-be', 4), ('utf-32-be', 8), ('utf-32-le', 4),
                                                              ('utf-16', 6), ('utf-32', 8), ('utf-8-sig', 5), ('cp1252', 2), ('cp437', 2), ('iso8859-15', 2), ('koi8-r', 2), ('cp037', 2), ('iso8859-7', 2))]
    out += [T('pack', fmt=f) for f in FORMATS] + [T('unpack', fmt=f, n=6) for f in FORMATS if f != '300s' and f != '']
    out += [T('dynamic', code=c) for c in 'spBxH']
    out += [T('stream'), T('slices'), T('ints'), T('methods')]
    out += [T('search', needle=x) for x in ('00', '41', 'ff')]
    out += [T('floats', code=c) for c in 'efd']
    return out


def main():
    t0 = time.time()
    import multiprocessing as mp

    from sx import runner

    pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 8), runner._init)
    bad = paths = 0
    for r in pool.imap_unordered(runner.run_task, [(t, t0 + 600, 1) for t in tasks()]):
        paths += r['validated']
        if os.environ.get('SX_SLOW'):
            print(r['task'], round(r['seconds'], 1), r['stats']['paths'])
        problems = r['mismatches'] + r['errors'] + r['violations'] + r['unreproduced']
        if r['incomplete']:
            print('  bounded:', r['task'], r['incomplete'][0], f"{r['stats']['paths']} paths")
        if problems:
            bad += 1
            print('MODEL DIFFERS', r['task'], len(problems), str(problems[0])[:1500])
    pool.terminate()
    pool.join()
    print(f'{paths} paths of the models replayed on CPython, {bad} tasks with differences, {time.time() - t0:.1f} s')
    sys.exit(1 if bad else 0)


main()
