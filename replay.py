#!/usr/bin/env python3
"""Replays inputs found by the solver on the unmodified code, without z3.

replay.py FILE              re-executes one reported violation
replay.py --batch PROPERTY  reads a list of items on stdin (used by the checks)
"""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from symex import api, loader     # noqa: E402
from symex.runner import run_harness     # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run(module, item, seconds=20):
    ctx = api.ConcreteContext(item['inputs'])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    stdout = sys.stdout
    try:
        run_harness(module, item, ctx)
        return dict(outcome='ok', message='', checks=ctx.checks)
    except api.Discard:
        return dict(outcome='discard', message='outside the preconditions')
    except api.Violation as exc:
        return dict(outcome='violation', message=str(exc))
    except Timeout:
        return dict(outcome='slow', message='does not terminate within {} s'.format(seconds))
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        in_code = any(f.filename.startswith(loader.SRC) or f.filename == '<string>' for f in tb)
        return dict(outcome='violation' if in_code else 'error',
                    message="unexpected {}: {}".format(type(exc).__name__, exc),
                    traceback=traceback.format_exc())
    finally:
        signal.alarm(0)
        sys.stdout = stdout


def main(argv):
    loader.install(instrumented=False)
    if argv[1] == '--batch':
        module = importlib.import_module('checks.' + argv[2])
        request = json.load(sys.stdin)
        loader.CANDIDATES = request['candidates']
        outcomes = []
        bad = 0
        for item in request['items']:
            if request['candidates'] and bad >= 5:
                outcomes.append(dict(outcome='skipped', message=''))
                continue
            if request['candidates']:
                loader.refresh()
            outcomes.append(run(module, item))
            bad += outcomes[-1]['outcome'] in ('violation', 'slow')
        print('@@' + json.dumps(outcomes))
        return 0
    loader.CANDIDATES = True
    item = json.load(open(argv[1]))
    module = importlib.import_module('checks.' + item['property'])
    outcome = run(module, item)
    print(outcome['outcome'], outcome['message'])
    if outcome.get('traceback'):
        print(outcome['traceback'])
    return 1 if outcome['outcome'] in ('violation', 'slow') else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
