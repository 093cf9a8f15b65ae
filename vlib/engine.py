"""Engine (CPython + Hypothesis): drives PyPy workers over generated cases, in parallel shards."""
import os
import sys
import json
import time
import select
import hashlib
import subprocess
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHUMPY_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PYPY = os.environ.get('VERIF_PYPY', '/opt/pypyvenv/bin/python')
CASE_TIMEOUT = 30.0
STEP_BUDGET = 4000000
RESTART_EVERY = 1500


class HarnessError(Exception):
    pass


class TimeUp(KeyboardInterrupt):
    """Propagates straight through Hypothesis."""


class HistoryFailure(KeyboardInterrupt):
    pass


class CaseTimeout(Exception):
    pass


class Worker(object):
    def __init__(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1', CHUMPY_REPO=REPO)
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([PYPY, '-u', os.path.join(VERIF, 'vlib', 'worker.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/', start_new_session=True)
        self.buf = b''
        self.n = 0
        self.history = []
        r = self._read(180)
        self.import_error = None if r.get('ready') else r.get('e')

    def _read(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise CaseTimeout()
            rl, _, _ = select.select([fd], [], [], left)
            if not rl:
                raise CaseTimeout()
            d = os.read(fd, 1 << 16)
            if not d:
                raise EOFError('worker died (exit %s)' % self.p.poll())
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode())

    def ask(self, req, timeout):
        self.p.stdin.write(json.dumps(req).encode() + b'\n')
        self.p.stdin.flush()
        return self._read(timeout)

    def close(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass


class Runner(object):
    """Runs cases of one property; confirms every violation in a pristine process."""

    def __init__(self, prop):
        self.prop = prop
        self.main = None
        self.zyg = None
        self.unreproduced = []
        self.timeouts = 0
        self.history_failure = None
        self.deadline = None
        self.forced_budget = False

    def _main(self):
        if self.main is not None and self.main.n >= RESTART_EVERY:
            self.main.close()
            self.main = None
        if self.main is None:
            self.main = Worker()
        return self.main

    def fresh(self, cases, budget=None, timeout=None):
        for attempt in range(2):
            if self.zyg is None:
                self.zyg = Worker()
                if self.zyg.import_error:
                    return {'v': 'importing the library fails: ' + self.zyg.import_error, 'e': None, 'nt': False, 'labels': [], 'known': []}
            req = {'prop': self.prop, 'cases': cases, 'fresh': 1}
            if budget:
                req['budget'] = budget
            try:
                return self.zyg.ask(req, timeout or CASE_TIMEOUT * 2)
            except EOFError:
                self.zyg.close()
                self.zyg = None
            except CaseTimeout:
                self.zyg.close()
                self.zyg = None
                return {'timeout': 1, 'v': None, 'e': None, 'nt': False, 'labels': ['timeout'], 'known': []}
        return {'v': None, 'e': 'fresh worker died twice', 'nt': False, 'labels': [], 'known': []}

    def run(self, case):
        """-> result dict; 'v' only if confirmed in a pristine process."""
        if self.forced_budget:
            return self.fresh([case], budget=STEP_BUDGET, timeout=600)
        w = self._main()
        if w.import_error:
            return {'v': 'importing the library fails: ' + w.import_error, 'e': None, 'nt': False, 'labels': [], 'known': []}
        try:
            res = w.ask({'prop': self.prop, 'case': case}, CASE_TIMEOUT)
        except CaseTimeout:
            w.close()
            self.main = None
            r2 = self.fresh([case], budget=STEP_BUDGET, timeout=600)
            if r2.get('v'):
                self.forced_budget = True
                return r2
            self.timeouts += 1
            r2['labels'] = ['timeout']
            r2['nt'] = False
            return r2
        except (EOFError, BrokenPipeError):
            w.close()
            self.main = None
            r2 = self.fresh([case])
            if r2.get('died'):
                r2 = dict(r2, v='the interpreter crashed while evaluating the case', e=None, nt=False, labels=[], known=[])
            return r2
        w.n += 1
        w.history.append(case)
        if res.get('v'):
            r2 = self.fresh([case])
            if r2.get('v'):
                return r2
            if r2.get('e'):
                return r2
            # only fails after other cases ran in the same process
            h = self.minimise_history(list(w.history))
            w.close()
            self.main = None
            if h is not None:
                self.history_failure = (h, res['v'])
                raise HistoryFailure()
            self.unreproduced.append({'case': case, 'v': res['v']})
            res['v'] = None
        return res

    def minimise_history(self, hist):
        end = time.time() + 40

        def bad(h):
            return bool(self.fresh(h, timeout=120).get('v'))
        if not bad(hist):
            return None
        last = hist[-1]
        pre = hist[:-1]
        n = 2
        while pre and time.time() < end:
            size = max(1, len(pre) // n)
            chunks = [pre[i:i + size] for i in range(0, len(pre), size)]
            for i in range(len(chunks)):
                if time.time() > end:
                    break
                cand = [c for j, ch in enumerate(chunks) if j != i for c in ch]
                if bad(cand + [last]):
                    pre, n = cand, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(pre), n * 2)
        return pre + [last]

    def close(self):
        for w in (self.main, self.zyg):
            if w is not None:
                w.close()


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load_corpus(prop):
    p = os.path.join(VERIF, 'corpus', prop + '.jsonl')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def shard_main(prop, tier, seed, shard, nshards, n_cases, t_end, q):
    import importlib
    sys.path.insert(0, VERIF)
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    from vlib import gen
    runner = Runner(prop)
    st = {'evals': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'known': {}, 'best': None, 'draws_failed': 0}

    def note(case, res):
        st['evals'] += 1
        if res.get('nt'):
            h = case_hash(case)
            if h not in st['hashes']:
                st['hashes'].add(h)
                if len(st['samples']) < 2 and len(json.dumps(case)) < 1500:
                    st['samples'].append(case)
        for l in set(res.get('labels') or ()):
            st['labels'][l] = st['labels'].get(l, 0) + 1
        for k in res.get('known') or ():
            st['known'][k] = st['known'].get(k, 0) + 1

    def report(case_list, msg):
        size = len(json.dumps(case_list))
        if st['best'] is None or size < st['best']:
            st['best'] = size
            q.put(('fail', shard, {'cases': case_list, 'v': msg, 'size': size}))

    try:
        mod = importlib.import_module('props.%s' % prop.lower())
        strat = gen.strategy(mod.generate, tier)

        def evaluate(case):
            if time.time() > t_end:
                raise TimeUp()
            res = runner.run(case)
            if res.get('e'):
                raise HarnessError(res['e'] + '\ncase: ' + json.dumps(case)[:2000])
            note(case, res)
            unlisted = [k for k in res.get('known') or () if k not in listed]
            if unlisted and not res.get('v'):
                res['v'] = 'deviation %s is not listed in known_findings.json' % unlisted[0]
            if res.get('v'):
                report([case], res['v'])
                return False
            return True

        listed = set(k.get('id') for k in known_for(prop))
        corpus = load_corpus(prop)
        ok = True
        for i, case in enumerate(corpus):
            if i % nshards == shard:
                ok = evaluate(case) and ok
        if ok:
            def test(case):
                if not evaluate(case):
                    raise AssertionError('violation')
            sd = int(hashlib.sha256(('%d/%s/%d' % (seed, prop, shard)).encode()).hexdigest()[:15], 16)
            f = hypothesis.seed(sd)(settings(max_examples=n_cases, database=None, deadline=None, derandomize=False,
                                             phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                                             report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet, print_blob=False,
                                             backend='hypothesis')(given(strat)(test)))
            f()
    except TimeUp:
        st['labels']['time-limit'] = st['labels'].get('time-limit', 0) + 1
    except HistoryFailure:
        h, v = runner.history_failure
        report(h, v + ' [needs the preceding cases of the replay in the same process]')
    except AssertionError:
        pass
    except BaseException as e:
        if st['best'] is None:
            import traceback
            q.put(('error', shard, traceback.format_exc()[-6000:]))
    finally:
        runner.close()
    st['hashes'] = sorted(st['hashes'])
    st['unreproduced'] = runner.unreproduced[:5]
    if gen.REJECTED:
        st['labels']['generator-rejected'] = len(gen.REJECTED)
    if os.environ.get('VERIF_SHOW') and gen.REJECTED:
        sys.stderr.write(gen.REJECTED[0])
    st['timeouts'] = runner.timeouts
    q.put(('done', shard, st))


def known_for(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def run_check(prop, tier):
    t0 = time.time()
    import importlib
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.%s' % prop.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nshards = int(os.environ.get('VERIF_SHARDS', '8'))
    n_cases = mod.CASES[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    per = max(1, int(n_cases * scale) // nshards)
    limit = float(os.environ.get('VERIF_WALL', '420' if tier == 'quick' else '10800'))
    shrink_s = 45 if tier == 'quick' else 180
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    t_end = t0 + limit
    procs = [ctxm.Process(target=shard_main, args=(prop, tier, seed, i, nshards, per, t_end, q), daemon=False) for i in range(nshards)]
    for p in procs:
        p.start()
    done, errors, best, first_fail = {}, [], None, None
    import queue as qm
    try:
        while len(done) < nshards:
            if first_fail is not None and time.time() - first_fail > shrink_s:
                break
            try:
                kind, sh, payload = q.get(timeout=1.0)
            except qm.Empty:
                if time.time() > t_end + 240:
                    errors.append('shards did not finish')
                    break
                if not any(p.is_alive() for p in procs) and q.empty():
                    time.sleep(1)
                    if q.empty():
                        if len(done) < nshards:
                            errors.append('a shard died without reporting')
                        break
                continue
            if kind == 'fail':
                if first_fail is None:
                    first_fail = time.time()
                if best is None or payload['size'] < best['size']:
                    best = payload
            elif kind == 'error':
                errors.append(payload)
            else:
                done[sh] = payload
                if best is not None:
                    # this shard finished shrinking: good enough
                    break
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
        _kill_group_children(procs)
    known = known_for(prop)
    ev = summarise(prop, tier, seed, mod, done, best, errors, time.time() - t0, known)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if best is not None:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s_%s.json' % (prop, case_hash(best['cases'])))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'cases': best['cases'], 'violation': best['v'],
                       'how': 'python3-vt run.py --replay %s' % path}, f, indent=1)
        print(best['v'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors[:3]) + '\n')
        return 2
    c = ev['coverage']
    print('%s %s: held on %d cases (%d distinct non-trivial) in %.1f s' % (prop, tier, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
    return 0


def _kill_group_children(procs):
    """Terminate PyPy workers whose shard was terminated (they are session leaders of their own)."""
    import signal
    pids = [p.pid for p in procs]
    try:
        out = subprocess.run(['ps', '-eo', 'pid,ppid,args'], stdout=subprocess.PIPE).stdout.decode()
    except OSError:
        out = ''
    for line in out.splitlines()[1:]:
        f = line.split(None, 2)
        if len(f) == 3 and os.path.join(VERIF, 'vlib', 'worker.py') in f[2] and (int(f[1]) in pids):
            try:
                os.kill(int(f[0]), signal.SIGKILL)
            except OSError:
                pass
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()


def summarise(prop, tier, seed, mod, done, best, errors, wall, known):
    evals = sum(s['evals'] for s in done.values())
    hashes = set()
    labels, samples, kn, unrep, tmo = {}, [], {}, [], 0
    for s in done.values():
        hashes.update(s['hashes'])
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s['known'].items():
            kn[k] = kn.get(k, 0) + v
        samples += s['samples'][:1]
        unrep += s['unreproduced']
        tmo += s['timeouts']
    cov = {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': mod.RULE,
           'samples': samples[:4], 'labels': dict(sorted(labels.items(), key=lambda x: -x[1])),
           'shards_reported': len(done)}
    if kn:
        cov['excluded_known_findings'] = kn
    if unrep:
        cov['unreproduced_discarded'] = len(unrep)
        cov['unreproduced_example'] = unrep[0]
    if tmo:
        cov['inconclusive_timeouts'] = tmo
    if best is not None:
        cov['evaluations'] = max(evals, 1)
        cov['samples'] = cov['samples'] or best['cases'][-1:]
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2),
            'violations': 1 if best is not None else 0, 'assumptions': getattr(mod, 'ASSUMPTIONS', []) + BASE_ASSUMPTIONS}


BASE_ASSUMPTIONS = [
    'NumPy 1.26 / SciPy 1.13 under PyPy compute their documented functions correctly (they are the oracle).',
    'Only generated cases are covered: sizes and depths are bounded by the generator.',
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    r = Runner(d['property'])
    try:
        res = r.fresh(d['cases'], timeout=120)
        if res.get('timeout'):
            res = r.fresh(d['cases'], budget=STEP_BUDGET, timeout=900)
    finally:
        r.close()
    if res.get('e'):
        sys.stderr.write(res['e'] + '\n')
        return 2
    if res.get('v'):
        print(res['v'])
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('replay: property %s holds on this case' % d['property'])
    return 0
