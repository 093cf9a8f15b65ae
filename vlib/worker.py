"""Worker process (PyPy 3.9): runs cases against the chumpy found in $CHUMPY_REPO.

Protocol: one JSON object per line on stdin/stdout.
  {"prop": "C01", "case": {...}}                      run in this process (history accumulates)
  {"prop": "C01", "cases": [...], "fresh": 1}         run the list in a forked, pristine child and
                                                       report the outcome of the last one
  optional "budget": N                                 count executed lines of library code and fail
                                                       with a non-termination violation above N
Reply: {"v": message or null, "e": harness error or null, "nt": bool, "labels": [...], "known": [...]}
"""
import os
import sys
import json
import importlib
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHUMPY_REPO', '/repo')


class NonTermination(BaseException):
    pass


def setup():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import gc
    import numpy as np
    np.seterr(all='ignore')
    import chumpy
    if not os.path.abspath(chumpy.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('imported chumpy from %s' % chumpy.__file__)
    import vlib.util as util
    # the library calls gc.collect() whenever it turns a Jacobian into a sparse matrix: a pure
    # performance matter that would dominate the run time.  Memory checks use the real one.
    util.real_collect = gc.collect
    gc.collect = lambda *a, **k: 0


def run_case(prop, case, budget=None):
    from vlib.util import Violation, Inconclusive, Ctx
    out = {'v': None, 'e': None, 'nt': False, 'labels': [], 'known': []}
    ctx = Ctx()
    try:
        mod = importlib.import_module('props.%s' % prop.lower())
    except Exception:
        out['e'] = traceback.format_exc()
        return out
    prefix = os.path.join(os.path.abspath(REPO), 'chumpy') + os.sep
    if budget:
        left = [budget]

        def local(frame, event, arg):
            if event == 'line':
                left[0] -= 1
                if left[0] < 0:
                    raise NonTermination()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        sys.settrace(tracer)
    try:
        nt = mod.check(case, ctx)
        out['nt'] = bool(nt)
    except Violation as e:
        out['v'] = str(e)[:4000]
    except Inconclusive as e:
        out['labels'].append('inconclusive')
    except NonTermination:
        out['v'] = 'does not terminate: more than %d lines of library code executed' % budget
    except (MemoryError, OSError, KeyboardInterrupt, SystemExit):
        out['e'] = traceback.format_exc()[-3000:]
    except Exception:
        tb = traceback.format_exc()
        etype, e, t = sys.exc_info()
        files = [f.filename for f in traceback.extract_tb(t)]
        if any(f.startswith(prefix) for f in files):
            out['v'] = 'unexpected exception: ' + tb[-1500:]
        else:
            # never happens with results of the promised kind: the library returned something else
            out['v'] = 'the result is not of the promised kind: ' + tb[-1500:]
    finally:
        if budget:
            sys.settrace(None)
    out['labels'] += ctx.labels
    out['known'] = ctx.knowns
    return out


def main():
    import random
    rfd = os.dup(0)
    wfd = os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    fin = os.fdopen(rfd, 'r')
    fout = os.fdopen(wfd, 'w')
    try:
        setup()
        fout.write('{"ready": 1}\n')
    except Exception:
        # importing the library failed: that is an outcome of the code under test
        fout.write(json.dumps({'ready': 0, 'e': traceback.format_exc()[-3000:]}) + '\n')
        fout.flush()
        return
    fout.flush()
    import numpy as np
    while True:
        line = fin.readline()
        if not line:
            return
        req = json.loads(line)
        if not req.get('fresh'):
            np.random.seed(12345)
            random.seed(12345)
            res = run_case(req['prop'], req['case'], req.get('budget'))
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = {'e': 'no result', 'v': None}
                try:
                    for c in req['cases']:
                        np.random.seed(12345)
                        random.seed(12345)
                        res = run_case(req['prop'], c, req.get('budget'))
                except BaseException:
                    res = {'e': traceback.format_exc()[-3000:], 'v': None}
                data = json.dumps(res).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                os._exit(0)
            os.close(w)
            buf = b''
            while True:
                d = os.read(r, 65536)
                if not d:
                    break
                buf += d
            os.close(r)
            os.waitpid(pid, 0)
            res = json.loads(buf.decode()) if buf else {'e': 'forked worker died', 'v': None, 'died': 1}
        fout.write(json.dumps(res) + '\n')
        fout.flush()


if __name__ == '__main__':
    main()
