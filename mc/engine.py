"""Bounded exhaustive exploration engine.

A property module provides

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)  -> iterable of JSON-able cases, simplest first
    run(case)    -> Outcome

The engine executes *every* case (no sampling) in forked workers, collects
counts, writes the evidence file and replayable violation files.
"""
import collections
import hashlib
import io
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
CASE_TIMEOUT = 240


class Outcome(object):
    """Result of exploring one case."""

    def __init__(self):
        self.fails = []            # list of (signature, message)
        self.evals = 0             # executions of code under test compared with the oracle
        self.states = 0            # distinct states visited (state-space checks)
        self.transitions = 0       # transitions executed
        self.validated = 0         # model traces replayed on the implementation
        self.keys = set()          # distinct observations (hashes)
        self.trivial = 0           # evaluations that could not discriminate

    def fail(self, sig, msg=''):
        if len(self.fails) < 20:
            self.fails.append((str(sig), str(msg)[:1500]))

    def check(self, cond, sig, msg=''):
        self.evals += 1
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
        return cond

    def key(self, obj):
        self.keys.add(digest(obj))


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'replace')
    return hashlib.blake2b(obj, digest_size=8).digest()


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang('case did not finish in time')


_MOD = None
_TIER = 'quick'
QUIET = io.StringIO


def run_case(case):
    """Runs one case, mapping every unexpected exception to a failure."""
    import numpy as np
    mod = _MOD
    out = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(240 if _TIER == 'quick' else 10*getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT))
    old = sys.stdout
    sys.stdout = QUIET()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            out = mod.run(case)
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            if isinstance(e, KeyboardInterrupt):
                raise
        out = Outcome()
        tb = traceback.extract_tb(e.__traceback__)
        where = 'harness'
        for fr in tb:
            if 'bicycleparameters' in fr.filename:
                where = os.path.basename(fr.filename) + ':' + fr.name
        out.fail('exception:%s:%s' % (type(e).__name__, where),
                 ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        out.evals += 1
    finally:
        signal.alarm(0)
        sys.stdout = old
    return out


def _work(item):
    i, case = item
    o = run_case(case)
    return (i, o.fails, o.evals, o.states, o.transitions, o.validated,
            o.keys, o.trivial)


def load_known(pid):
    """Signatures of recorded findings, from the committed findings file."""
    known = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split('sig=', 1)[1]
                    sig, _, text = rest.partition(' | ')
                    known[sig.strip()] = text.strip()
    return known


def main(mod, tier, procs=None):
    global _MOD, _TIER
    _MOD, _TIER = mod, tier
    t0 = time.time()
    pid = mod.ID
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    procs = procs or int(os.environ.get('VERIF_PROCS', '8'))
    known = load_known(pid)
    tot = collections.Counter()
    keys = set()
    samples = []
    viol = []
    seen_known = {}
    budget = float(os.environ.get('VERIF_BUDGET', '800' if tier == 'quick' else '14000'))
    capped = None

    def gen():
        for i, c in enumerate(mod.cases(tier)):
            if i < 3 or (i % 997 == 0 and len(samples) < 8):
                text = json.dumps(c, default=str)
                samples.append(c if len(text) < 1500 else text[:1500] + ' ...')
            yield i, c

    first = {}
    store = {}
    ncases = 0

    def tracked():
        for i, c in gen():
            store[i] = c
            yield i, c

    if hasattr(mod, 'prepare'):  # fill caches shared by the workers
        sys.stdout = QUIET()
        try:
            mod.prepare()
        except Exception:  # noqa, the cases run into it again
            pass
        finally:
            sys.stdout = sys.__stdout__
    if procs > 1 and not getattr(mod, 'SERIAL', False):
        ctx = multiprocessing.get_context('fork')
        pool = ctx.Pool(procs)
        it = pool.imap(_work, tracked(), chunksize=getattr(mod, 'CHUNK', 8))
    else:
        pool = None
        it = map(_work, tracked())
    try:
        for (i, fails, ev, st, tr, va, ks, triv) in it:
            ncases += 1
            case = store.pop(i)
            tot['evals'] += ev
            tot['states'] += st
            tot['transitions'] += tr
            tot['validated'] += va
            tot['trivial'] += triv
            keys |= ks
            for sig, msg in fails:
                if sig in known:
                    seen_known[sig] = known[sig]
                elif sig not in first:
                    first[sig] = True
                    viol.append((sig, msg, case))
            if any(s.startswith('exception:Hang') for s, _ in fails):
                capped = 'stopped after a case that did not end'
                break
            if len(viol) >= int(os.environ.get('VERIF_MAXVIOL', '12')):
                capped = 'stopped after %d distinct violations' % len(viol)
                break
            if time.time() - t0 > budget:
                capped = 'time budget of %.0f s reached after %d cases' % (budget, ncases)
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    for sig, text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, text, sig))

    cov = {'cases': ncases, 'samples': samples[:8] or ['(none)'],
           'rule': mod.RULE, 'exhaustive': capped is None}
    if capped:
        cov['capped'] = capped
    if mod.LEVEL == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'],
                   traces_validated_against_impl=tot['validated'],
                   oracle_comparisons=tot['evals'],
                   distinct_observations=len(keys))
    else:
        cov.update(evaluations=tot['evals'],
                   distinct_nontrivial=len(keys) if keys else tot['evals'] - tot['trivial'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': list(mod.ASSUMPTIONS),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if ncases == 0 or tot['evals'] == 0:
        viol.append(('vacuous', 'nothing was explored', None))
    if viol:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for k, (sig, msg, case) in enumerate(viol):
            path = os.path.join(rdir, '%s-%d.json' % (pid, k))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'signature': sig, 'message': msg,
                           'case': case}, f, indent=1, default=str)
            if k < 4:
                print('--- %s %s\n    case: %s\n    %s' % (
                    pid, sig, json.dumps(case, default=str)[:200], msg[-900:].replace('\n', '\n    ')))
            else:
                print('--- %s %s' % (pid, sig))
        print('VIOLATION property=%s replay=%s' % (
            pid, os.path.join(rdir, '%s-0.json' % pid)))
        return 1
    print('OK property=%s tier=%s cases=%d %s wall=%.1fs%s' % (
        pid, tier, ncases,
        ' '.join('%s=%d' % (k, v) for k, v in sorted(tot.items()) if v),
        time.time() - t0, ' CAPPED: ' + capped if capped else ''))
    return 0


def replay(mod, path):
    global _MOD
    _MOD = mod
    with open(path) as f:
        rec = json.load(f)
    outs = [run_case(rec['case']) for _ in range(2)]
    for o in outs:
        for sig, msg in o.fails:
            print('%s: %s' % (sig, msg))
    same = [s for s, _ in outs[0].fails] == [s for s, _ in outs[1].fails]
    print('replayed twice, identical outcome: %s' % same)
    if outs[0].fails:
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    print('no violation')
    return 0


# ---------------------------------------------------------------- helpers

def deviations(menu, base, k, extra=()):
    """All assignments that differ from ``base`` in at most ``k`` of the keys
    of ``menu``, each over every value of its menu; fewest deviations first."""
    names = sorted(menu)
    for n in range(k + 1):
        for combo in itertools.combinations(names, n):
            for vals in itertools.product(*[menu[c] for c in combo]):
                yield dict(zip(combo, vals))


def close(a, b, rtol=1e-9, atol=1e-11):
    import numpy as np
    try:
        a = np.asarray(a, dtype=complex)
        b = np.asarray(b, dtype=complex)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        return False
    fin = np.isfinite(b)
    scale = np.max(np.abs(b[fin])) if fin.any() else 0.0
    return bool(np.all(np.abs(a[fin] - b[fin]) <= atol + rtol * max(scale, 0.0)))


def eclose(a, b, rtol=1e-9, atol=1e-12):
    """elementwise closeness"""
    import numpy as np
    try:
        a = np.asarray(a, dtype=complex)
        b = np.asarray(b, dtype=complex)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(
        np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def snap(obj):
    """Deep, comparable snapshot of dictionaries/arrays/numbers (uncertain
    numbers included)."""
    import numpy as np
    if isinstance(obj, dict):
        return ('d', tuple((k, snap(v)) for k, v in sorted(obj.items(), key=lambda kv: str(kv[0]))))
    if isinstance(obj, np.ndarray):
        return ('a', obj.shape, str(obj.dtype), tuple(snap(x) for x in obj.ravel().tolist()))
    if isinstance(obj, (list, tuple)):
        return ('l', type(obj).__name__, tuple(snap(x) for x in obj))
    if hasattr(obj, 'nominal_value'):
        return ('u', repr(float(obj.nominal_value)), repr(float(obj.std_dev)))
    if isinstance(obj, (float, np.floating)):
        return ('f', repr(float(obj)))
    return ('o', repr(obj))


def raises(fn, *exc):
    """returns the exception raised by fn() or None"""
    try:
        fn()
    except exc or Exception as e:  # noqa
        return e
    return None


def chunks(it, n):
    """lists of n consecutive items"""
    it = iter(it)
    while True:
        block = list(itertools.islice(it, n))
        if not block:
            return
        yield block


def uniq(arr):
    """hashable rounding of numeric results, for counting distinct ones"""
    import numpy as np
    return tuple(np.round(np.asarray(arr, dtype=complex).ravel(), 6).tolist())
