"""Replays a counterexample on the unmodified package of $VERIF_REPO (or /repo).

    python3-vt replay.py out/C01-xxxx.json      exit 1: the property is violated
"""
import importlib
import json
import os
import resource
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


def hang(*_):
    print('violated: does not end within 60 s')
    os._exit(1)


def main():
    data = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(60)
    from sx import ctx as C
    from sx import loader

    def plain_import():
        # the ordinary import system, no hook
        loader.purge()
        return importlib.import_module('structured')

    loader.fresh = plain_import
    mod = importlib.import_module(f'props.{data["module"]}')
    c = C.ConcreteCtx(data['inputs'])
    try:
        getattr(mod, data['fn'])(c, **data['params'])
    except C.Bad as e:
        print(f'violated: {e}')
        for kind, v in c.trace[-6:]:
            print('   ', kind, str(v)[:200])
        sys.exit(1)
    except (C.AssumptionFailed, C.MissingInput) as e:
        print('not applicable to this tree:', type(e).__name__, e)
        sys.exit(0)
    except Exception as e:
        import traceback

        traceback.print_exc(file=sys.stdout)
        print(f'violated: unexpected {type(e).__name__}: {e}')
        sys.exit(1)
    print('holds')


main()
