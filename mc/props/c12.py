"""C12: saving parameter files asks before overwriting and round-trips.

Explicit-state exploration: a state is the content of a few paths (and of the
files of a bicycle tree); an operation is a write with a list of prompt
answers, a load, adding a rider or saving a bicycle.  A boring reference model
(a dictionary path -> content) predicts the number of prompts answered, the
return value and every file after each step of the real code.
"""
import io as _io
import itertools
import os
import shutil
import struct
import sys

from uncertainties import ufloat

from mc import refs
from mc.bikes import Tree, nom, scratch, sd, write_par
from mc.engine import Outcome, chunks, snap

from bicycleparameters import io
import bicycleparameters as bp

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of write/answer/load/save histories against a reference file-state model, every transition executed on the real code in a '
             'scratch directory with the prompt answered by the explorer')
LEVEL_NOTE = ('All states of three paths reachable by writes of four dictionaries, every write and answer list from each; all answer strings up to length 3 over a '
              'small alphabet; all value classes; bicycle histories {load, save, rider, save} to depth 4 (thorough 5) over sets and answers.')
RULE = 'states are file contents (abstracted to which dictionary they hold); every transition runs the real code and all files of the folder are judged'
ASSUMPTIONS = ['a prompt is answered through standard input', 'uncertain values are compared within the rounding of their printed form (15 % of the deviation)']


class Answers(_io.StringIO):
    """standard input that counts the lines consumed"""

    def __init__(self, answers):
        _io.StringIO.__init__(self, ''.join(a + '\n' for a in answers))
        self.n = 0

    def readline(self, *a):
        r = _io.StringIO.readline(self, *a)
        if r:
            self.n += 1
        return r


def with_answers(answers, fn):
    old = sys.stdin
    sys.stdin = src = Answers(answers)
    try:
        try:
            return fn(), None, src.n
        except EOFError as e:
            return None, e, src.n
    finally:
        sys.stdin = old


def prompts(answers):
    """(number of answers consumed, decision)"""
    for i, a in enumerate(answers):
        if a in ('y', 'n'):
            return i + 1, a
    return len(answers), None


def bits(x):
    return struct.pack('>d', float(x))


def parse(text):
    """independent reading of 'name = value' lines"""
    out = {}
    order = []
    for ln in text.split('\n'):
        if not ln.strip():
            continue
        k, _, v = ln.partition('=')
        k, v = k.strip(), v.strip()
        order.append(k)
        e = ''
        if v.startswith('('):
            v, _, e = v[1:].partition(')')
        a, _, b = v.partition('+/-')
        out[k] = (float(a + e), float(b + e) if b else None)
    return out, order


def same(got, want):
    """value read back equals the one written"""
    if hasattr(want, 'nominal_value'):
        n, s = float(want.nominal_value), float(want.std_dev)
        if s == 0.0:
            return abs(nom(got) - n) <= 1e-14*abs(n) and sd(got) == 0.0
        return abs(nom(got) - n) <= 0.15*s + 1e-14*abs(n) and abs(sd(got) - s) <= 0.15*s
    return sd(got) == 0.0 and bits(nom(got) + 0.0) == bits(want + 0.0)  # the sign of zero is not kept


def judge_file(o, path, want, sig, msg):
    with open(path) as f:
        text = f.read()
    got, order = parse(text)
    m = lambda: '%s\n%s' % (msg(), text[:600])
    o.check(set(got) == set(want) and len(order) == len(want), sig + ':names', m)
    for k in want:
        if k in got:
            n, s = got[k]
            o.check(same(ufloat(n, s) if s is not None else n, want[k]), sig + ':text-value', lambda: '%s %s %r' % (m(), k, want[k]))
    back = io.load_parameter_text_file(path)
    o.check(set(back) == set(want) and all(same(back[k], want[k]) for k in want), sig + ':read-back', m)


# ------------------------------------------------------------ prompt machine
D = [{'c': 0.1, 'w': 1.02}, {'c': ufloat(0.08, 0.01), 'lam': 0.3, 'IBxx': 1e-05, 'zz': -3.0}, {}, {'w': 2.5}]
FOREIGN = b'# foreign file\nold = 3.0\nc = 9 +/- 1\nverylongname = 12345.678901234567\n' + b'x = 1.0\n'*30
PATHS = ['a.txt', 'b.txt', os.path.join('new', 'dir', 'c.txt')]
ANSWERS = [['y'], ['n'], ['', 'Y', 'yes', 'y'], ['N', ' n', 'no', 'n', 'y'], ['q', 'y', 'n'], ['x']]


def build(root, state):
    for p, s in zip(PATHS, state):
        if s is None:
            continue
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(FOREIGN if s == 'F' else ''.join('%s = %s\n' % (k, D[s][k]) for k in sorted(D[s])).encode())


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for x in fs:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


def run_machine(case):
    """every write from every state"""
    o = Outcome()
    for state in case['states']:
        o.states += 1
        for pi, di, ans, relative in itertools.product(range(3), range(len(D)), ANSWERS, (False, True)):
            if relative and pi == 2 and di > 1:
                continue
            root = scratch('c12')
            build(root, state)
            before = listing(root)
            arg = dict(D[di])
            keep = snap(arg)
            exists = state[pi] is not None
            cwd = os.getcwd()
            try:
                if relative:
                    os.chdir(root)
                target = PATHS[pi] if relative else os.path.join(root, PATHS[pi])
                ret, err, used = with_answers(ans, lambda: io.write_parameter_text_file(target, arg))
            finally:
                os.chdir(cwd)
            after = listing(root)
            o.transitions += 1
            msg = lambda: 'state %r path %s dict %d answers %r -> %r %r used %d' % (state, PATHS[pi], di, ans, ret, err, used)
            want_used, decision = prompts(ans) if exists else (0, 'y')
            o.check(used == want_used, 'answers-consumed', msg)
            others = {k: v for k, v in after.items() if k != PATHS[pi]}
            o.check(others == {k: v for k, v in before.items() if k != PATHS[pi]}, 'other-files', msg)
            o.check(snap(arg) == keep, 'argument-changed', msg)
            if decision == 'y':
                o.check(err is None and ret is True, 'reports-saved', msg)
                if o.check(PATHS[pi] in after, 'not-written', msg):
                    judge_file(o, os.path.join(root, PATHS[pi]), D[di], 'written', msg)
            else:
                if decision == 'n':
                    o.check(err is None and ret is False, 'reports-not-saved', msg)
                o.check(after.get(PATHS[pi]) == before.get(PATHS[pi]), 'kept-file', msg)
            o.validated += 1
            o.key((exists, tuple(ans), di, decision))
            shutil.rmtree(root, ignore_errors=True)
    return o


def run_answers(case):
    """every short answer string before the final answer"""
    o = Outcome()
    root = scratch('c12')
    path = os.path.join(root, 'p.txt')
    for first, final in case['pairs']:
        with open(path, 'wb') as f:
            f.write(FOREIGN)
        ans = first + [final]
        ret, err, used = with_answers(ans, lambda: io.write_parameter_text_file(path, D[0]))
        n, decision = prompts(ans)
        msg = lambda: 'answers %r -> %r used %d' % (ans, ret, used)
        o.states += 1
        o.transitions += n
        o.check(used == n, 'answers-consumed', msg)
        o.check(err is None and ret is (decision == 'y'), 'reports', msg)
        if decision == 'y':
            judge_file(o, path, D[0], 'written', msg)
        else:
            with open(path, 'rb') as f:
                o.check(f.read() == FOREIGN, 'kept-file', msg)
        o.key(tuple(ans))
    shutil.rmtree(root, ignore_errors=True)
    return o


def as_nobody(fn):
    """result of fn in a child process without any privileges, None if there can be no such process"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = None
        try:
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
            else:
                out = fn()
        finally:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run_modes(case):
    """files which the user may not read or write, links to files"""
    o = Outcome()
    for mode, dmode, link, ans in case['items']:
        root = scratch('c12')
        for x in (os.path.dirname(root), root):
            # the scratch directory of this check may be passed through
            if not os.stat(x).st_mode & 0o001:
                os.chmod(x, 0o711)
        d = os.path.join(root, 'data')
        os.mkdir(d)
        path = real = os.path.join(d, 'p.txt')
        if link:
            real = os.path.join(d, 'real.txt')
            os.symlink(real if link == 'abs' else 'real.txt', path)
        with open(real, 'wb') as f:
            f.write(FOREIGN)
        os.chmod(real, mode)
        how = lambda: 'file mode %o folder mode %o link %r answers %r -> %r' % (mode, dmode, link, ans, res)

        def save():
            try:
                return with_answers(ans, lambda: io.write_parameter_text_file(path, D[0]))[::2] + (None,)
            except OSError as e:
                return None, None, type(e).__name__
        try:
            os.chown(real, 65534, 65534)
            os.chown(d, 65534, 65534)
            os.chmod(d, dmode)
            res = as_nobody(save)
        except PermissionError:
            res = None
        os.chmod(d, 0o700)
        if res is None:
            o.trivial += 1
            shutil.rmtree(root, ignore_errors=True)
            continue
        ret, used, err = res
        n, decision = prompts(ans)
        o.states += 1
        o.transitions += 1
        o.key((mode, dmode, link, tuple(ans), err))
        with open(path, 'rb') as f:
            now = f.read()
        if err is None:
            o.check(used == n and ret is (decision == 'y'), 'modes:asked', how)
        # an error may keep a file from being saved, but it does not harm it
        if ret:
            judge_file(o, path, D[0], 'modes:written', how)
        else:
            o.check(now == FOREIGN, 'modes:kept', how)
        o.check(decision == 'y' or err is None, 'modes:error', how)
        shutil.rmtree(root, ignore_errors=True)
    return o


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.0/3.0, 1e-5, -2.5e-17, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1e16, 1e22, 123456789.123456789,
          -9007199254740993.0, 1e-7, 1e7, 9.81, 1.0000000000000002, 4.35, 1e100, -1e-100, 12345678.0, 100000.0, 0.30000000000000004, 2.0/3.0e5]
NOMS = [0.0, 1.0, -1.0, 0.3, 12.345678, -1234.5678, 1.5e-4, 2.3456e5, 9.9999]
SDS = [0.0, 1e-12, 0.00123, 0.0354, 0.0356, 0.0949, 0.0951, 0.0999, 0.1, 1.0, 99.5, 1.234e4]


def run_values(case):
    """every value class and every pair of neighbouring ones"""
    o = Outcome()
    root = scratch('c12')
    import numpy as np
    vals = ([float(x) for x in FLOATS] + [np.float64(x) for x in FLOATS[:12]] + [ufloat(n, s) for n in NOMS for s in SDS] + [3, 0, -7] +
            [2*ufloat(1.0, 0.1) + ufloat(0.5, 0.3)])
    names = ['c', 'IBxx', 'TcB1', 'aB1', 'lam']
    for i, v in enumerate(vals):
        for pair in ([], [vals[(i + 1) % len(vals)]], [vals[(i + 7) % len(vals)], 1.5]):
            d = dict(zip(names, [v] + pair))
            path = os.path.join(root, 'v', 'x%d.txt' % i)
            if os.path.exists(path):
                os.remove(path)
            ret, err, used = with_answers([], lambda: io.write_parameter_text_file(path, d))
            o.check(ret is True and used == 0, 'new-file', lambda: repr(d))
            judge_file(o, path, d, 'value', lambda: repr(d))
            o.states += 1
            o.transitions += 1
            o.key(repr(d))
    shutil.rmtree(root, ignore_errors=True)
    return o


# ------------------------------------------------------------ bicycle saving
RIDER = {'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9, 'mB': 72.0, 'xB': 0.29, 'yB': 0.001, 'zB': -1.1}
SETS = {'float': {'Benchmark': dict(refs.BENCH)}, 'unc': {'Benchmark': {k: ufloat(v, 0.01*abs(v) + 1e-3) for k, v in refs.BENCH.items()}},
        'two': {'Benchmark': dict(refs.BENCH), 'Extra': {'q': 1.5, 'r': ufloat(2.0, 0.25)}},
        'three': {'Benchmark': dict(refs.BENCH), 'Extra': {'q': 1.5}, 'Zoo': {'a': -1.0, 'b': 2.0, 'c': 3.0}},
        'measured': {'Benchmark': dict(refs.BENCH), 'Measured': {'h': 0.5, 'TcB1': ufloat(1.5, 0.01)}}}
OPS = ['load', 'save-y', 'save-n', 'rider', 'edit']


def psets_match(o, got, want, sig, msg):
    o.check(set(got) == set(want), sig + ':sets', lambda: '%s %r %r' % (msg(), sorted(got), sorted(want)))
    for s in want:
        if s in got:
            bad = [k for k in set(want[s]) ^ set(got[s])] + [k for k in want[s] if k in got[s] and not same(got[s][k], want[s][k])]
            o.check(not bad, sig + ':values', lambda: '%s %s %r' % (msg(), s, [(k, got[s].get(k), want[s].get(k)) for k in bad[:4]]))


def run_history(case):
    o = Outcome()
    for kind, hist in case['hists']:
        o.states += 1
        with Tree() as t:
            for ps_, d in SETS[kind].items():
                if ps_ == 'Measured':
                    write_par(t.path('bicycles', 'Synth', 'RawData', 'SynthMeasured.txt'), d)
                else:
                    write_par(t.path('bicycles', 'Synth', 'Parameters', 'Synth%s.txt' % ps_), d)
            write_par(t.path('riders', 'McAnn', 'Parameters', 'McAnnSynthBenchmark.txt'), RIDER)
            bike = bp.Bicycle('Synth', pathToData=t.root)
            model = {k: dict(v) for k, v in SETS[kind].items()}  # expected parameters in memory
            disk = {k: dict(v) for k, v in SETS[kind].items()}   # expected bicycle files
            rider = False
            for step, op in enumerate(hist):
                msg = lambda: '%s %r step %d %s' % (kind, hist, step, op)
                before = t.snapshot()
                o.transitions += 1
                if op == 'load':
                    bike = bp.Bicycle('Synth', pathToData=t.root)
                    model = {k: dict(v) for k, v in disk.items()}
                    rider = False
                    psets_match(o, bike.parameters, model, 'reload', msg)
                    o.check(t.snapshot() == before, 'load-changed-files', msg)
                elif op == 'rider':
                    bike.add_rider('McAnn')
                    rider = True
                    o.check(t.snapshot() == before, 'rider-changed-files', msg)
                elif op == 'edit':
                    # the user works with other values
                    for s in bike.parameters:
                        if s != 'Measured':
                            k = sorted(bike.parameters[s])[0]
                            v = 0.123456789 + step
                            bike.parameters[s][k] = v
                            model[s][k] = v
                else:
                    a = op[-1]
                    memory = {s: dict(v) for s, v in bike.parameters.items()}
                    keep = snap([memory, bike.riderPar])
                    _, err, used = with_answers([a]*12, bike.save_parameters)
                    after = t.snapshot()
                    o.check(snap([{s: dict(v) for s, v in bike.parameters.items()}, bike.riderPar]) == keep, 'save-changed-parameters', msg)
                    expect = {}
                    if rider:
                        base = os.path.join('riders', 'McAnn', 'Parameters')
                        expect[os.path.join(base, 'McAnnSynthBenchmark.txt')] = dict(bike.riderPar['Benchmark'])
                        expect[os.path.join(base, 'Combined', 'McAnnSynthBenchmark.txt')] = memory['Benchmark']
                    else:
                        for s in memory:
                            if s != 'Measured':
                                expect[os.path.join('bicycles', 'Synth', 'Parameters', 'Synth%s.txt' % s)] = memory[s]
                    files = lambda snp: {k: v for k, v in snp.items() if not k.endswith('/')}
                    b, c = files(before), files(after)
                    o.check(used == len([e for e in expect if e in b]) and err is None, 'prompts', lambda: '%s used %d' % (msg(), used))
                    for p in expect:
                        if p not in b or a == 'y':
                            if o.check(p in c, 'not-saved', lambda: '%s %s' % (msg(), p)):
                                judge_file(o, t.path(p), expect[p], 'saved', lambda: '%s %s' % (msg(), p))
                        else:
                            o.check(c.get(p) == b[p], 'kept', lambda: '%s %s' % (msg(), p))
                    o.check({k: v for k, v in c.items() if k not in expect} == {k: v for k, v in b.items() if k not in expect}, 'other-files',
                            lambda: '%s %r' % (msg(), sorted(set(c) - set(b))))
                    if not rider and a == 'y':
                        disk = {s: dict(v) for s, v in memory.items()}
                o.key((kind, op, rider, step))
            if rider:
                # the bicycle with its rider can be loaded again
                again = bp.Bicycle('Synth', pathToData=t.root)
                psets_match(o, again.parameters, disk, 'final-reload', lambda: '%s %r' % (kind, hist))
            o.validated += 1
    return o


def run_raw(case):
    """a bicycle computed from measurements, saved and loaded again"""
    o = Outcome()
    with Tree() as t:
        t.copy_bike(case['name'], raw=True, par=False)
        bike = bp.Bicycle(case['name'], pathToData=t.root)
        before = t.snapshot()
        with_answers([], bike.save_parameters)
        after = t.snapshot()
        rel = os.path.join('bicycles', case['name'], 'Parameters', case['name'] + 'Benchmark.txt')
        new = {k for k in after if not k.endswith('/')} - set(before)
        o.check(new == {rel}, 'raw:files', lambda: '%r' % new)
        o.check(all(after[k] == before[k] for k in before), 'raw:old-files', lambda: case['name'])
        judge_file(o, t.path(rel), bike.parameters['Benchmark'], 'raw', lambda: case['name'])
        again = bp.Bicycle(case['name'], pathToData=t.root)
        psets_match(o, again.parameters, bike.parameters, 'raw:reload', lambda: case['name'])
        o.states += 2
        o.transitions += 3
        o.validated += 1
    return o


def run(case):
    return {'modes': run_modes, 'machine': run_machine, 'answers': run_answers, 'values': run_values, 'history': run_history, 'raw': run_raw}[case['part']](case)


CHUNK = 1


def histories(tier):
    depth = 5 if tier == 'thorough' else 4
    for kind in SETS:
        for n in range(1, depth + 1):
            if tier == 'quick' and n == depth and kind not in ('two', 'measured'):
                continue
            for h in itertools.product(OPS, repeat=n):
                # a second rider is another property; editing twice in a row is one edit
                if any(a == b and a in ('edit', 'load') for a, b in zip(h, h[1:])) or 'rider' in h and h.count('rider') > 1 and 'load' not in h:
                    continue
                r = False
                ok = True
                for x in h:
                    if x == 'rider':
                        ok = ok and not r
                        r = True
                    if x == 'load':
                        r = False
                if ok:
                    yield kind, list(h)


def cases(tier):
    yield {'part': 'values'}
    alpha = ['y', 'n', 'Y', ' ']
    strings = [''.join(x) for n in range(0, 4) for x in itertools.product(alpha, repeat=n)] + ['yes', 'no', 'N', 'nope', 'yy', '0', 'true', 'ynynyn']
    pairs = [([a], f) for a in strings for f in 'yn']
    short = ['', 'Y', 'x', 'yn'] if tier == 'quick' else ['', 'Y', 'x', 'yn', 'n ', 'yes', '1']
    pairs += [(list(p), f) for n in (2, 3) for p in itertools.product(short, repeat=n) for f in 'yn']
    for c in chunks(pairs, 60):
        yield {'part': 'answers', 'pairs': c}
    vals = [None, 'F', 0, 1, 2, 3] if tier == 'thorough' else [None, 'F', 0, 1]
    for st in itertools.product(vals, repeat=3):
        yield {'part': 'machine', 'states': [list(st)]}
    yield {'part': 'modes', 'items': [[m, dm, link, a] for m in (0o600, 0o644, 0o444, 0o400, 0o200, 0) for dm in (0o700, 0o500) for link in (None, 'abs', 'rel')
                                      for a in (['y'], ['n'], ['x', 'n'])]}
    for c in chunks(histories(tier), 12):
        yield {'part': 'history', 'hists': c}
    for n in ('Browser', 'Rigid', 'Rigidcl', 'Gyro', 'Stratos'):
        yield {'part': 'raw', 'name': n}
