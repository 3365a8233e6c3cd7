"""C01: array overrides are element-by-element evaluation.

Enumerated: for each of the three models every subset of up to k overridable
parameters as arrays (all lengths 1..4, both key orders), every container and
number type for every single parameter, one additional scalar override, and
every sequence of up to d calls from a call alphabet on one live model object
(including calls with unknown names, unequal lengths, re-used and re-filled
arrays and changes of the stored parameters), compared with a fresh model.
Oracle: a separate scalar evaluation at each index on a fresh model.
"""
import copy
import itertools

import numpy as np

from mc import refs
from mc.engine import Outcome, close, digest
from mc.models_common import BASES, KINDS, call, make

ID = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = ('stateless explicit-state exploration of call histories plus exhaustive '
             'enumeration of override subsets on the real models, oracle: per-index scalar evaluation')
LEVEL_NOTE = ('Every subset of up to 2 (thorough 3) array parameters per model, every container/number '
              'type for each single parameter, all call histories up to length 3 (thorough 4). Assumes that values '
              'outside the menus behave alike.')
RULE = ('all subsets <=k of array-valued parameters x lengths x key orders; all single parameters x containers; '
        'all call histories <=d from the call alphabet; one evaluation = one array call compared with one scalar '
        'evaluation per index')
ASSUMPTIONS = ['parameter values are drawn from small menus around a real bicycle']


def values(kind, key, n, j=0):
    """n distinct valid float values for a parameter"""
    b = BASES[kind][key]
    if key == 'v':
        return [(0.5 + 1.75*i + 0.3*j)*(-1)**i for i in range(n)]
    if key == 'g':
        return [9.81 - 1.5*i - 0.1*j for i in range(n)]
    if b == 0.0 or key in refs.GAINS:
        return [b + 0.7*(i + 1)*(-1)**i + 0.05*j for i in range(n)]
    return [b*(1.0 + 0.04*(i + 1)*(-1)**i + 0.01*j) for i in range(n)]


INTS = {'v': [0, 3, 1, 7], 'g': [9, 10, 1, 2], 'mB': [80, 10, 33, 7], 'mF': [2, 1, 3, 5],
        'mH': [3, 1, 2, 5], 'mR': [3, 2, 1, 4], 'IBxx': [11, 3, 9, 2], 'IByy': [11, 3, 9, 2],
        'IBzz': [3, 7, 2, 5], 'IBxz': [-1, 0, 1, -2], 'IFxx': [1, 2, 3, 1], 'IFyy': [1, 2, 4, 3],
        'IHxx': [1, 2, 3, 1], 'IHyy': [1, 2, 3, 1], 'IHzz': [1, 2, 3, 1], 'IHxz': [0, -1, 1, 0],
        'IRxx': [1, 2, 3, 1], 'IRyy': [1, 2, 3, 1], 'c': [0, 1, -1, 2], 'lam': [0, 1, -1, 0],
        'rF': [1, 2, 3, 1], 'rR': [1, 2, 3, 1], 'w': [1, 2, 3, 4], 'xB': [0, 1, -1, 2],
        'xH': [1, 0, 2, -1], 'zB': [-1, -2, -3, 0], 'zH': [-1, -2, 0, -3],
        'c9': [0, 3, 10, 1], 'k9': [0, 100, 7, 3], 'mc': [33, 5, 10, 20], 'md': [3, 2, 1, 4],
        'me': [3, 2, 1, 4], 'mf': [3, 2, 1, 4], 'mg': [48, 5, 20, 30], 'ic11': [2, 3, 5, 7],
        'ic22': [2, 3, 5, 7], 'ic33': [2, 3, 5, 7], 'ig11': [2, 3, 5, 7], 'ig22': [2, 3, 5, 7],
        'ig33': [2, 3, 5, 7], 'id11': [1, 2, 3, 4], 'id22': [1, 2, 3, 4], 'ie11': [1, 2, 3, 4],
        'ie22': [1, 2, 3, 4], 'ie33': [1, 2, 3, 4], 'if11': [1, 2, 3, 4], 'if22': [1, 2, 3, 4],
        'l1': [0, 1, -1, 2], 'l2': [0, -1, 1, 2], 'l3': [0, -1, 1, 2], 'l4': [0, -1, 1, 2],
        'l5': [0, 1, -1, 2], 'l6': [0, -1, 1, 2], 'd4': [0, -1, 1, 2]}
INTS.update({k: [-3, 0, 5, 2] for k in refs.GAINS})

FORMS = ['array', 'list', 'tuple', 'strided', 'readonly', 'float32', 'bigendian',
         'intlist', 'intarray', 'int32', 'mixed', 'intfirst', 'npscalars']


def form(kind, key, n, f):
    """the same kind of values in a given container; returns (object, floats)"""
    v = values(kind, key, n)
    if f in ('intlist', 'intarray', 'int32', 'mixed'):
        if key not in INTS:
            return None, None
        v = INTS[key][:n]
        if f == 'intlist':
            return list(v), v
        if f == 'intarray':
            return np.array(v), v
        if f == 'int32':
            return np.array(v, dtype=np.int32), v
        o = [float(x) if i % 2 else int(x) for i, x in enumerate(v)]
        return o, v
    if f == 'intfirst':
        # an integer followed by values with decimals
        if key not in INTS:
            return None, None
        o = [int(INTS[key][0])] + list(v[1:])
        return o, o
    if f == 'array':
        return np.array(v), v
    if f == 'list':
        return list(v), v
    if f == 'tuple':
        return tuple(v), v
    if f == 'strided':
        a = np.zeros(2*n)
        a[::2] = v
        return a[::2], v
    if f == 'readonly':
        a = np.array(v)
        a.setflags(write=False)
        return a, v
    if f == 'float32':
        a = np.array(v, dtype=np.float32)
        return a, [float(x) for x in a]
    if f == 'bigendian':
        return np.array(v, dtype='>f8'), v
    if f == 'npscalars':
        return [np.float64(x) for x in v], v
    raise ValueError(f)


def ops_for(kind):
    return ('ss', 'eig', 'left') if kind == 'L' else ('can', 'ss', 'eig', 'left')


_FRESH = {}


def fresh(kind, op, scal, stored=None):
    k = (kind, op, tuple(sorted(scal.items())), tuple(sorted((stored or {}).items())))
    if k not in _FRESH:
        if len(_FRESH) > 4000:
            _FRESH.clear()
        _FRESH[k] = call(make(kind, stored), op, scal)[0]
    return _FRESH[k]


CANON_FREE = {'v', 'g'} | set(refs.GAINS)


def compare(o, op, res, kind, arrs, scal, n, sig, stored=None, rtol=1e-9):
    """res: result of array call; arrs: {key: floats}"""
    if op == 'can' and (not arrs or set(arrs) <= CANON_FREE):
        exp = fresh(kind, op, scal, stored)
        # these do not depend on speed, gravity, gains: plain or repeated
        ok = True
        for r, e in zip(res, exp):
            if r.ndim == 3:
                ok = ok and all(close(ri, e, rtol) for ri in r)
            else:
                ok = ok and close(r, e, rtol)
        o.check(ok and len(res) == 4, sig + ':can-const', lambda: 'got %r expected %r' % (res, exp))
        return
    if n is None:
        exp = fresh(kind, op, scal, stored)
        same(o, op, res, exp, kind, scal, sig, stored, rtol)
        return
    for r in res:
        if not o.check(r.ndim >= 2 and r.shape[0] == n, sig + ':shape', lambda: 'shapes %r, expected leading %d' % ([x.shape for x in res], n)):
            return
    for i in range(n):
        s = dict(scal, **{k: float(v[i]) for k, v in arrs.items()})
        exp = fresh(kind, op, s, stored)
        same(o, op, tuple(r[i] for r in res), exp, kind, s, sig, stored, rtol, i)


def same(o, op, got, exp, kind, s, sig, stored, rtol, i=None):
    if op in ('can', 'ss'):
        ok = len(got) == len(exp) and all(close(a, b, rtol, 1e-10) for a, b in zip(got, exp))
        o.check(ok, sig + ':' + op, lambda: 'index %r overrides %r\ngot %r\nexpected %r' % (i, s, got, exp))
        o.key(tuple(np.round(np.asarray(x, complex), 6).tobytes() for x in exp))
    else:
        A = fresh(kind, 'ss', s, stored)[0]
        if op == 'left':
            A = A.T
        scale = max(1.0, np.linalg.norm(A))
        if kind == 'L':
            # defective zero eigenvalues: compare the characteristic polynomial
            ok = (refs.charpoly_error(A, got[0]) < max(1e-6, 10*rtol) and
                  refs.eig_residual(A, *got) < max(1e-8, 10*rtol))
        else:
            ok = (refs.same_multiset(got[0], exp[0], max(2e-5, 10*rtol)*scale) and
                  refs.eig_residual(A, *got) < max(1e-8, 10*rtol))
        o.check(ok, sig + ':' + op, lambda: 'index %r overrides %r\ngot %r\nexpected %r' % (i, s, got[0], exp[0]))


# ------------------------------------------------------------------ subsets
def run_subset(case):
    o = Outcome()
    kind, keys = case['m'], case['keys']
    stored = {k: (v[0] if isinstance(v, list) else v) for k, v in BASES[kind].items()}
    for n in case['lengths']:
        arrs = {k: values(kind, k, n, j) for j, k in enumerate(keys)}
        m = make(kind)
        before = dict(m.parameter_set.parameters)
        for op in case.get('ops') or ops_for(kind):
            for sc in case.get('scal', [{}]):
                if set(sc) & set(keys):
                    continue
                inp = {k: np.array(v) for k, v in arrs.items()}
                allk = dict(inp, **sc)
                res, w = call(m, op, allk)
                compare(o, op, res, kind, arrs, sc, n, 'subset')
                o.check(all(np.array_equal(inp[k], arrs[k]) for k in inp), 'caller-array', 'input arrays changed')
                o.check(not w, 'warned', lambda: 'unexpected warnings %r' % w)
                o.states += 1
                o.transitions += 1
                o.validated += 1
        o.check(m.parameter_set.parameters == before, 'stored', 'stored parameters changed by a query')
    return o


def run_forms(case):
    o = Outcome()
    kind, key = case['m'], case['key']
    for f in FORMS:
        for n in case['lengths']:
            obj, v = form(kind, key, n, f)
            if obj is None:
                continue
            if f == 'float32' and kind == 'L' and key in ('d1', 'd2', 'd3', 'rf', 'rr'):
                continue  # dtk's Newton iteration needs double precision
            snap = copy.deepcopy(obj)
            m = make(kind)
            for op in case.get('ops') or ops_for(kind):
                res, w = call(m, op, {key: obj})
                compare(o, op, res, kind, {key: v}, {}, n, 'form-' + f, rtol=1e-6 if f == 'float32' else 1e-9)
                o.check(type(obj) is type(snap) and list(obj) == list(snap), 'caller-array', 'input changed')
                o.states += 1
                o.transitions += 1
    # a scalar in any number type
    v0 = values(kind, key, 1)[0]
    sc = [v0, np.float64(v0), np.float32(v0)]
    if key in INTS:
        sc += [INTS[key][0], np.int64(INTS[key][1]), np.int32(INTS[key][0])]
    for s in sc:
        m = make(kind)
        for op in case.get('ops') or ops_for(kind):
            res, w = call(m, op, {key: s})
            compare(o, op, res, kind, {}, {key: float(s)}, None, 'scalar-' + type(s).__name__,
                    rtol=1e-6 if isinstance(s, np.float32) else 1e-9)
            # together with an array
            other = 'v' if key != 'v' else 'g'
            vv = values(kind, other, 2)
            res, w = call(m, op, {other: np.array(vv), key: s})
            compare(o, op, res, kind, {other: vv}, {key: float(s)}, 2, 'scalar+array-' + type(s).__name__,
                    rtol=1e-6 if isinstance(s, np.float32) else 1e-9)
    return o


WORDS = [w for w in itertools.product((0, 1), repeat=3) if w[0] == 0] + [(0, 0, 1, 1), (1, 0, 0, 1)]
PAIRS = [((0, 0, 1, 1), (0, 1, 0, 1))]


def run_words(case):
    """arrays that repeat values (as grids do) and hold nearly equal values"""
    o = Outcome()
    kind, keys = case['m'], case['keys']
    patterns = [(w,) for w in WORDS] if len(keys) == 1 else PAIRS if len(keys) == 2 else list(itertools.product(WORDS, repeat=len(keys)))
    m = make(kind)
    for near in (False, True) if case['near'] else (False,):
        for pat in patterns:
            arrs = {}
            for j, (k, w) in enumerate(zip(keys, pat)):
                v = values(kind, k, 2, j)
                if near:
                    v[1] = v[0]*(1.0 + 2e-6) + (2e-6 if v[0] == 0.0 else 0.0)
                arrs[k] = [v[i] for i in w]
            for op in case['ops']:
                res, w = call(m, op, {k: np.array(v) for k, v in arrs.items()})
                compare(o, op, res, kind, arrs, {}, len(pat[0]), 'words')
                o.states += 1
                o.transitions += 1
    return o


# ---------------------------------------------------------------- histories
def alphabet(kind):
    inert = {'W': 'IBxx', 'FB': 'IBxx', 'L': 'ig11'}[kind]
    geo = {'W': 'w', 'FB': 'w', 'L': 'l1'}[kind]
    a = [('ss', {}), ('eig', {'v': 5.0}), ('ss', {'v': [1.0, 4.0]}),
         ('ss', {inert: values(kind, inert, 3)}), ('eig', {geo: values(kind, geo, 2), 'v': [2.0, 6.0]}),
         ('left', {'g': 1.62}), ('ss', {'nope': 1.0, 'v': 3.0}), ('ss', {'v': [1., 2.], geo: values(kind, geo, 3)}),
         ('shared', {}), ('refill', {}), ('store', {'v': None}), ('store', {inert: None, geo: None}), ('swap', {})]
    if kind == 'FB':
        a += [('ss', {'kTdel_phid': [1.0, -2.0, 4.0]}), ('ss', {'kTphi_del': [1, 2], 'v': 7})]
    if kind != 'L':
        a += [('can', {geo: values(kind, geo, 2)})]
    return a


def spoil(res):
    """what was returned belongs to the caller, who may overwrite it"""
    for r in res:
        if isinstance(r, np.ndarray) and r.flags.writeable:
            r[...] = -77.0


def run_history(case):
    o = Outcome()
    kind, hist = case['m'], case['h']
    al = alphabet(kind)
    m = make(kind)
    stored = {}
    shared = np.array([1.5, 3.5])
    for step, a in enumerate(hist):
        op, over = al[a]
        sig = 'history'
        o.transitions += 1
        expected_stored = dict(m.parameter_set.parameters)
        if op == 'store':
            # the stored parameters are edited in place
            new = {k: 2.0 + step if k == 'v' else values(kind, k, 1, step + 1)[0] for k in over}
            m.parameter_set.parameters.update(new)
            stored = dict(stored, **new)
            continue
        if op == 'swap':
            # another parameter set
            stored = {'v': 3.0 + 0.5*step, 'g': 3.7}
            m.parameter_set = make(kind, stored).parameter_set
            continue
        if op in ('shared', 'refill'):
            if op == 'refill':
                shared[:] = shared[::-1] + 0.25
            res, w = call(m, 'ss', {'v': shared})
            compare(o, 'ss', res, kind, {'v': shared.tolist()}, {}, 2, sig + ':' + op, stored)
            spoil(res)
            continue
        arrs = {k: v for k, v in over.items() if isinstance(v, list)}
        lens = {len(v) for v in arrs.values()}
        if len(lens) > 1:
            try:
                call(m, op, {k: np.array(v) if isinstance(v, list) else v for k, v in over.items()})
                o.check(False, 'unequal-lengths', 'no error for %r' % over)
            except Exception:
                o.check(True, 'unequal-lengths')
        else:
            res, w = call(m, op, {k: np.array(v) if isinstance(v, list) else v for k, v in over.items()})
            scal = {k: float(v) for k, v in over.items() if not isinstance(v, list) and k != 'nope'}
            compare(o, op, res, kind, arrs, scal, lens.pop() if lens else None, sig, stored)
            spoil(res)
            o.check(bool(w) == ('nope' in over), 'unknown-name-warning', 'overrides %r warnings %r' % (over, w))
        o.check(m.parameter_set.parameters == expected_stored, 'stored', 'step %d of %r changed stored parameters' % (step, hist))
        o.states += 1
    o.validated += 1
    return o


def run_unknown(case):
    """unknown names and unequal lengths in every position"""
    o = Outcome()
    kind = case['m']
    names = list(BASES[kind])
    m = make(kind)
    for bad in ['foo', 'V', 'mB ', 'kTphi', 'parameters']:
        if bad in names:
            continue
        for val in (1.0, 3, [1.0, 2.0], np.array([1., 2., 3.])):
            for op in ops_for(kind):
                for extra in ({}, {'v': np.array([1., 2., 3., 4.])}):
                    over = dict({bad: val}, **extra)
                    res, w = call(m, op, over)
                    arrs = {k: v.tolist() for k, v in extra.items()}
                    compare(o, op, res, kind, arrs, {}, 4 if arrs else None, 'unknown')
                    o.check(len(w) >= 1 and any(bad in x for x in w), 'unknown-warning', repr(w))
    for a, b in itertools.permutations(names, 2):
        if a == b:
            continue
        for la, lb in ((2, 3), (1, 2), (3, 1)):
            for op in ('ss',) if kind == 'L' else ('can', 'ss'):
                try:
                    call(m, op, {a: np.array(values(kind, a, la)), b: np.array(values(kind, b, lb))})
                    o.check(False, 'unequal-lengths', '%s[%d] %s[%d]' % (a, la, b, lb))
                except Exception:
                    o.check(True, 'unequal-lengths')
        o.states += 1
    return o


def cases(tier):
    quick = tier == 'quick'
    for kind in KINDS:
        names = list(BASES[kind])
        for k in names:
            if kind == 'L' and quick:
                yield {'k': 'subset', 'm': kind, 'keys': [k], 'lengths': [1, 3], 'ops': ['ss', 'left'],
                       'scal': [{'v': 4.0}]}
            else:
                yield {'k': 'subset', 'm': kind, 'keys': [k], 'lengths': [1, 2, 3, 4, 12],
                       'scal': [{}, {'v': 4.0}, {'g': 3.7}] + ([{'kTdel_phid': -1.5}] if kind == 'FB' else [])}
    for kind in KINDS:
        for k in BASES[kind]:
            yield {'k': 'words', 'm': kind, 'keys': [k], 'near': kind != 'L' or not quick, 'ops': ['ss'] if kind == 'L' else ['can', 'ss', 'eig']}
    for kind in KINDS:
        pairs = itertools.permutations(BASES[kind], 2)
        if kind == 'L' and quick:
            # both orders with the speed, one of the others
            pairs = [(a, b) for a, b in pairs if 'v' in (a, b) or a < b]
        for a, b in pairs:
            yield {'k': 'words', 'm': kind, 'keys': [a, b], 'near': not quick, 'ops': ['ss']}
    for kind in KINDS:
        yield {'k': 'unknown', 'm': kind}
        for k in BASES[kind]:
            if kind == 'L' and quick:
                yield {'k': 'forms', 'm': kind, 'key': k, 'lengths': [2], 'ops': ['ss']}
            else:
                yield {'k': 'forms', 'm': kind, 'key': k, 'lengths': [2, 3]}
    for kind in KINDS:
        names = list(BASES[kind])
        if kind == 'L' and quick:
            for a, b in itertools.combinations(names, 2):
                yield {'k': 'subset', 'm': kind, 'keys': [a, b], 'lengths': [2], 'ops': ['ss']}
        else:
            for a, b in itertools.permutations(names, 2):
                yield {'k': 'subset', 'm': kind, 'keys': [a, b], 'lengths': [2]}
    for kind in KINDS:
        n = len(alphabet(kind))
        for d in (1, 2, 3) if quick else (1, 2, 3, 4):
            if kind == 'L' and d > (2 if quick else 3):
                continue
            for h in itertools.product(range(n), repeat=d):
                yield {'k': 'hist', 'm': kind, 'h': list(h)}
    # v, g (and gains) together with every other parameter
    for kind in KINDS:
        names = list(BASES[kind])
        if kind == 'L' and quick:
            continue
        if quick or kind == 'L':
            trip = [['v', 'g', x] for x in names if x not in 'vg']
            if kind == 'FB':
                trip += [[g1, 'v', x] for g1 in refs.GAINS for x in names if x not in ('v', g1)]
        else:
            trip = [list(c) for c in itertools.combinations(names, 3)]
        for t in trip:
            yield {'k': 'subset', 'm': kind, 'keys': t, 'lengths': [2]}
    for kind in KINDS:
        names = list(BASES[kind])
        yield {'k': 'subset', 'm': kind, 'keys': names, 'lengths': [2, 3]}
        if kind == 'FB':
            yield {'k': 'subset', 'm': kind, 'keys': list(refs.GAINS), 'lengths': [1, 2, 3, 4]}


def run(case):
    return {'subset': run_subset, 'words': run_words, 'forms': run_forms, 'hist': run_history,
            'unknown': run_unknown}[case['k']](case)
