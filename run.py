#!/usr/bin/env python3-vt
"""Usage:
    python3-vt run.py C01 quick|thorough     run the check of one property
    python3-vt run.py --replay FILE          re-run a recorded failing case, without Hypothesis
    python3-vt run.py --self-test            setup sanity check
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from vlib import engine
    if argv[:1] == ['--replay']:
        return engine.replay(argv[1])
    if argv[:1] == ['--self-test']:
        import json
        with open(os.path.join(engine.VERIF, 'MANIFEST.json')) as f:
            m = json.load(f)
        w = engine.Worker()
        try:
            if w.import_error:
                sys.stderr.write(w.import_error)
                return 2
        finally:
            w.close()
        import importlib
        for c in m['checks']:
            importlib.import_module('props.%s' % c['property'].lower())
        print('self-test ok: %d checks' % len(m['checks']))
        return 0
    if len(argv) != 2 or argv[1] not in ('quick', 'thorough'):
        sys.stderr.write(__doc__)
        return 2
    return engine.run_check(argv[0], argv[1])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
