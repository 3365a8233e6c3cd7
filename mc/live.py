"""Histories of questions and changes on two live models of one kind.

Both models exist throughout, what they return is overwritten by its owner, the
stored parameters are edited in place, replaced or moved to another set between
questions; every answer is judged against the reference of the parameters which
hold at that moment.
"""
import itertools

import numpy as np

from mc import refs
from mc.models_common import BASES, call, make, make_set

START = [{}, {'v': 2.5, 'g': 3.7}]
# key -> function of the old value
EDIT = {'W': [{'v': lambda x: x + 1.0}, {'mB': lambda x: x*1.2}, {'w': lambda x: x + 0.1, 'IFyy': lambda x: 2.0*x}],
        'FB': [{'v': lambda x: x + 1.0, 'kTdel_phid': lambda x: x - 4.0}, {'mB': lambda x: x*1.2}, {'kTphi_del': lambda x: 0.0}],
        'L': [{'v': lambda x: x + 1.0}, {'mg': lambda x: x*1.2}, {'c9': lambda x: 2.0*x + 1.0, 'd1': lambda x: x + 0.05}]}
OVER = {'W': [{}, {'v': [1.0, 4.0]}, {'IBxx': [8.0, 9.0, 12.0], 'v': 3.0}, {'g': 1.62}],
        'FB': [{}, {'v': [1.0, 4.0], 'kTdel_phid': -2.0}, {'kTphi_del': [1.0, 0.0, -3.0]}, {'mB': 50.0}],
        'L': [{}, {'v': [1.0, 4.0]}, {'mg': [40.0, 60.0], 'v': 3.0}, {'g': 1.62}]}


def reference(kind, p):
    """M, C1, K0, K2 (not for the leaning rider), A, B"""
    if kind == 'L':
        return (None,) + tuple(refs.lean_ss(p))
    can = refs.whipple(p)
    return (can,) + tuple(refs.feedback_ss(p) if kind == 'FB' else refs.state_space(*can, p['v'], p['g']))


def letters(kind):
    """asks and changes, of the first and of the second model"""
    out = []
    for m in (0, 1):
        out += [('ask', m, i) for i in range(len(OVER[kind]))] + [('edit', m, i) for i in range(len(EDIT[kind]))]
    return out + [('replace', 0, 0), ('set', 0, 0), ('share', 0, 0)]


def sequences(kind, n):
    """all sequences of up to n letters of the first model with the second one in between, ending in a question"""
    al = letters(kind)
    return [s for s in itertools.product(al, repeat=n) if s[-1][0] == 'ask' and any(x[:2] == ('ask', 0) for x in s)]


_REF = {}


def cached(kind, p):
    k = (kind,) + tuple(p.items())
    if k not in _REF:
        if len(_REF) > 5000:
            _REF.clear()
        _REF[k] = reference(kind, p)
    return _REF[k]


def matrices(o, kind, model, p, over, sig, how):
    """the matrices of the model against those of the parameters"""
    n = max([len(v) for v in over.values() if isinstance(v, list)] or [0])
    kw = {k: np.array(v) if isinstance(v, list) else v for k, v in over.items()}
    for op in ('ss',) if kind == 'L' else ('ss', 'can'):
        res, _ = call(model, op, kw)
        for i in range(max(n, 1)):
            q = dict(p, **{k: v[i] if isinstance(v, list) else v for k, v in over.items()})
            can, A, B = cached(kind, q)
            want = can if op == 'can' else (A, B)
            # canonical matrices which are the same for all indices may be given once
            got = [r[i] if n and np.ndim(r) == 3 else r for r in res]
            ok = len(got) == len(want) and all(np.shape(g) == np.shape(w) and np.allclose(g, w, rtol=1e-8, atol=1e-9*max(1.0, np.max(np.abs(w)))) for g, w in zip(got, want))
            o.check(ok, sig + ':' + op, lambda: '%s index %d\ngot %r\nwant %r' % (how, i, got, want))
            o.states += 1
        for r in res:
            if r.flags.writeable:
                r[...] = -77.0


def eigen(o, kind, model, p, over, sig, how):
    n = max([len(v) for v in over.values() if isinstance(v, list)] or [0])
    kw = {k: np.array(v) if isinstance(v, list) else v for k, v in over.items()}
    for left in (False, True):
        res, _ = call(model, 'left' if left else 'eig', kw)
        for i in range(max(n, 1)):
            q = dict(p, **{k: v[i] if isinstance(v, list) else v for k, v in over.items()})
            A = cached(kind, q)[1]
            A = A.T if left else A
            ev, vec = [r[i] if n else r for r in res]
            o.check(np.shape(ev) == A.shape[:1] and np.shape(vec) == A.shape and refs.eig_residual(A, ev, vec) < 1e-8 and refs.charpoly_error(A, ev) < 1e-6,
                    sig + ':eigen', lambda: '%s index %d left %r: %r' % (how, i, left, ev))
            o.states += 1
        for r in res:
            if r.flags.writeable:
                r[...] = -77.0


def run(o, kind, seqs, judge, sig='live'):
    for seq in seqs:
        ms = [make(kind, s) for s in START]
        ps = [dict(BASES[kind], **s) for s in START]
        ps = [{k: float(v) for k, v in p.items()} for p in ps]
        for j, (op, m, i) in enumerate(seq):
            how = '%s %r' % (kind, seq[:j + 1])
            o.transitions += 1
            if op == 'ask':
                judge(o, kind, ms[m], ps[m], OVER[kind][i], sig, how)
                stored = ms[m].parameter_set.parameters
                o.check(stored == ps[m], sig + ':stored', lambda: '%s\n%r\n%r' % (how, stored, ps[m]))
                continue
            if op == 'edit':
                new = {k: f(ps[m][k]) for k, f in EDIT[kind][i].items()}
                ps[m].update(new)
                ms[m].parameter_set.parameters.update(new)
            elif op == 'replace':
                new = {'v': ps[0]['v'] + 0.5, 'g': 1.62}
                shared = ps[0] is ps[1]
                ps[0] = dict(ps[0], **new)
                if shared:
                    ps[1] = ps[0]
                ms[0].parameter_set.parameters = dict(ps[0])
            elif op == 'set':
                new = {'v': 6.5}
                ps[0] = dict(ps[0], **new)
                ms[0].parameter_set = make_set(kind, ps[0])
            elif op == 'share':
                # the first model takes over the set of the second one
                ms[0].parameter_set = ms[1].parameter_set
                ps[0] = ps[1]
        o.validated += 1
        o.key((kind, str(seq)))
    return o
