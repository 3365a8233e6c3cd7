"""C13: updating measured files never loses measurements, even when interrupted.

(a) histories: every base file of up to a few lines of every form x every
    sequence of two period updates, judged against a reference model (kept
    lines in order, dictionary of periods);
(b) crash points: the real write runs in a forked process under a fault
    injector which ends the process before / inside / after, or makes fail,
    each of its file system calls in turn; the file found afterwards must be
    the complete old or the complete new one and the operation repeatable.
"""
import ctypes
import itertools
import os
import shutil
import sys

import numpy as np
from uncertainties import ufloat

from mc import rawdata, refs
from mc.bikes import DATA, Tree, nom, scratch, sd
from mc.engine import Outcome, chunks, snap
from mc.props.c12 import same, with_answers

from bicycleparameters import io
import bicycleparameters as bp

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive crash-point and I/O-error exploration of the real write paths under a file system fault injector (LD_PRELOAD), plus exhaustive '
             'enumeration of base files x update histories against a reference model')
LEVEL_NOTE = ('Every mutating file system call of every write operation x {death before, after, after part of a write; ENOSPC, EIO, short write, short write then '
              'ENOSPC}, single faults (thorough: also every pair fault+death on the retry); all base files of up to 3 lines of 9 forms x update pairs. Death of the '
              'process, not power loss: data written but not synced is taken to survive.')
RULE = 'one state = disk content after a fault at one call; one transition = one faulted run of the real operation; every state is compared with old/new and retried'
ASSUMPTIONS = ['the process dies or a system call fails; the operating system itself survives', 'period lines start with T in the first column']

LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(os.environ['VERIF_CRASH_SO'])
        LIB.crash_log.restype = ctypes.c_char_p
    return LIB


# ------------------------------------------------------------------ histories
LINES = ['h1 = 0.5', 'TcB1 = 1.5+/-0.01', '# TtB2 = 9.0', '', 'TtB1=2.0', 'whb = 0.4 # T here', '  a = 1 +/- 0.1', 'd=0.3+/-0.01, 0.31+/-0.02', 'tau = 3.0',
         '  Tref = 21.0 # room', 'Torque = 2.5', 'TtB = 1.5+/-0.25']
UPDATES = [{}, {'TcB1': ufloat(1.75, 0.001)}, {'TtB1': ufloat(2.5, 0.02), 'TtP1': 3.0}, {'TcB1': 1.25, 'TtB1': ufloat(0.5, 0.1), 'TcF1': ufloat(9.0, 0.25)}]


def period_like(s):
    return s.startswith('T')


def kept(lines):
    return [x for x in lines if not period_like(x)]


def split(text):
    lines = text.replace('\r\n', '\n').split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    return lines


def run_files(case):
    o = Outcome()
    root = scratch('c13')
    path = os.path.join(root, 'SynthMeasured.txt')
    for idx in case['files']:
        base = [LINES[i] for i in idx]
        for eol, final in (('\n', True), ('\n', False), ('\r\n', True)):
            text = eol.join(base) + (eol if final and base else '')
            for u1, u2 in itertools.product(UPDATES, UPDATES):
                with open(path, 'w', newline='') as f:
                    f.write(text)
                # blank lines at an unterminated end are no lines
                expect_kept = kept(split(text))
                model = None
                for u in (u1, u2):
                    mp = io.load_parameter_text_file(path)
                    if model is None:
                        model = dict(mp)
                    mp.update(u)
                    model.update(u)
                    arg = snap(mp)
                    io.write_periods_to_file(path, mp)
                    o.transitions += 1
                    with open(path, newline='') as f:
                        now = f.read()
                    msg = lambda: '%r + %r, %r -> %r' % (text, u1, u2, now)
                    o.check(snap(mp) == arg, 'argument-changed', msg)
                    o.check(kept(split(now)) == expect_kept, 'lines-kept', msg)
                    back = io.load_parameter_text_file(path)
                    o.check(set(back) == set(model), 'names', msg)
                    o.check(all(k in back and same(back[k], model[k]) for k in model), 'values', msg)
                    names = [x.split('=')[0].strip() for x in split(now) if period_like(x)]
                    o.check(sorted(k for k in names if k != 'Tref') == sorted(k for k in model if k.startswith('T') and k != 'Tref'), 'period-lines', msg)
                    o.check(os.listdir(root) == ['SynthMeasured.txt'], 'leftover', msg)
                    # what is compared next is what is on disk
                    model = dict(back) if set(back) == set(model) else model
                o.states += 1
                o.key((idx and tuple(idx), eol, final))
                o.validated += 1
    shutil.rmtree(root, ignore_errors=True)
    return o


# -------------------------------------------------------------- crash points
KINDS = {0: 'exit before', 1: 'exit after', 2: 'exit after half', 3: 'ENOSPC', 4: 'EIO', 5: 'short write', 6: 'half then ENOSPC', 7: 'exit after 1 byte',
         8: 'exit before last byte'}


def big(n):
    return {'x%03d' % i: 1.0/3.0 + i for i in range(n)}


def setup(op, root):
    """creates the old state, returns (watched files, function)"""
    if op.startswith('par'):
        p = os.path.join(root, 'sub', 'par.txt') if op == 'par-new' else os.path.join(root, 'par.txt')
        old = big(400) if op in ('par-big', 'par-shrink') else {'a': 1.0, 'b': 2.0}
        new = big(600) if op in ('par-big', 'par-grow') else {'a': 3.5, 'c': ufloat(2.0, 0.1)}
        if op != 'par-new':
            with open(p, 'w') as f:
                f.write(''.join('%s = %r\n' % (k, old[k]) for k in sorted(old)))
        return [p], lambda: with_answers(['y'], lambda: io.write_parameter_text_file(p, new))
    if op.startswith('per'):
        p = os.path.join(root, 'SynthMeasured.txt')
        if op == 'per-shipped':
            shutil.copy(os.path.join(DATA, 'bicycles', 'Rigidcl', 'RawData', 'RigidclMeasured.txt'), p)
        else:
            with open(p, 'w') as f:
                f.write('h1 = 0.5\nTcB1 = 1.0\n' + ''.join('# line %d\n' % i for i in range(900 if op == 'per-big' else 2)) + 'h2 = 0.25')
        mp = io.load_parameter_text_file(p)
        mp.update({'TcB1': ufloat(1.5, 0.01), 'TtB1': 2.0})
        return [p], lambda: io.write_periods_to_file(p, mp)
    if op in ('save', 'save-rider'):
        from mc.bikes import write_par
        names = [os.path.join(root, 'bicycles', 'Synth', 'Parameters', 'Synth%s.txt' % s) for s in ('Benchmark', 'Extra')]
        write_par(names[0], refs.BENCH)
        write_par(names[1], {'q': 1.0})
        rid = os.path.join(root, 'riders', 'Ann', 'Parameters', 'AnnSynthBenchmark.txt')
        write_par(rid, {'IBxx': 8.0, 'IByy': 8.1, 'IBzz': 2.4, 'IBxz': -1.9, 'mB': 72.0, 'xB': 0.29, 'yB': 0.001, 'zB': -1.1})
        bike = bp.Bicycle('Synth', pathToData=root)
        bike.parameters['Benchmark']['mB'] = 12.5
        bike.parameters['Extra']['q'] = 2.0
        if op == 'save-rider':
            bike.add_rider('Ann')
            names = [rid, os.path.join(root, 'riders', 'Ann', 'Parameters', 'Combined', 'AnnSynthBenchmark.txt')]
        return names, lambda: with_answers(['y']*9, bike.save_parameters)
    raise ValueError(op)


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def faulted(root, fn, idx, kind):
    """runs fn in a forked process with the fault armed; returns
    ('crash'|'error'|'done'|..., calls, log, hit)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            L = lib()
            L.crash_arm(os.path.realpath(root).encode(), idx, kind)
            try:
                res = fn()
                code = 1 if isinstance(res, tuple) and res[1] is not None else 0
            except OSError:
                code = 1
            except BaseException:
                code = 2
            n = L.crash_disarm()
            os.write(w, b'%d %d %s' % (n, L.crash_hit(), L.crash_log()))
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    how = {0: 'done', 1: 'error', 77: 'crash'}.get(rc, 'other-%s' % rc)
    parts = data.split(None, 2)
    n, hit = (int(parts[0]), int(parts[1])) if len(parts) > 1 else (None, None)
    return how, n, (parts[2].decode() if len(parts) > 2 else ''), hit


def loads(path):
    """the file reads back"""
    io.load_parameter_text_file(path)


def run_crash(case):
    o = Outcome()
    op = case['op']
    top = scratch('c13c')

    def fresh():
        root = os.path.join(top, 'r')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        return root

    # the unfaulted run: number of calls, old and new contents
    root = fresh()
    files, fn = setup(op, root)
    old = {f: read(f) for f in files}
    everything_old = {os.path.join(d, x) for d, _, fs in os.walk(root) for x in fs}
    how, n, log, _ = faulted(root, fn, -1, 0)
    new = {f: read(f) for f in files}
    msg = lambda: '%s: %s calls: %s' % (op, n, log)
    o.check(how == 'done', 'unfaulted', lambda: msg() + how)
    o.check(any(new[f] != old[f] for f in files) and all(new[f] is not None for f in files), 'nothing-written', msg)
    o.check({os.path.join(d, x) for d, _, fs in os.walk(root) for x in fs} == everything_old | set(files), 'leftover', msg)
    if not n:
        o.check(False, 'no-calls-intercepted', msg)
        return o
    o.key((op, log))
    seen = set()
    for idx in range(n):
        for kind in sorted(KINDS):
            root = fresh()
            files, fn = setup(op, root)
            how, m, log2, hit = faulted(root, fn, idx, kind)
            now = {f: read(f) for f in files}
            msg = lambda: '%s call %d of (%s) %s -> %s; old/new: %r' % (op, idx, log, KINDS[kind], how, {
                os.path.basename(f): 'old' if now[f] == old[f] else 'new' if now[f] == new[f] else ('missing' if now[f] is None else now[f][:80]) for f in files})
            o.transitions += 1
            o.check(how in ('done', 'error', 'crash'), 'outcome', msg)
            for f in files:
                o.check(now[f] == old[f] or now[f] == new[f], 'torn', msg)
            if how == 'done':
                o.check(all(now[f] == new[f] for f in files), 'silent-loss', msg)
            seen.add((how, tuple(now[f] == old[f] for f in files)))
            o.key((op, idx, kind, how, tuple(now[f] == old[f] for f in files)))
            # what is there can be read and the operation repeated
            for f in files:
                if now[f] is not None:
                    loads(f)
            retry_kinds = [None] if case['tier'] == 'quick' else [None, (0, 0), (1, 2), (2, 0), (3, 0), (4, 0), (1, 6)]
            saved = os.path.join(top, 'save')
            shutil.rmtree(saved, ignore_errors=True)
            shutil.copytree(root, saved)
            for rk in retry_kinds:
                if rk is not None:
                    shutil.rmtree(root)
                    shutil.copytree(saved, root)
                    faulted(root, fn, *rk)
                    o.transitions += 1
                    for f in files:
                        o.check(read(f) in (old[f], new[f]), 'torn-again', lambda: msg() + ' retry %r' % (rk,))
                if op != 'par-new' and not op.startswith('save'):
                    how2 = faulted(root, fn, -1, 0)[0]
                    o.check(how2 == 'done' and all(read(f) == new[f] for f in files), 'retry', lambda: msg() + ' retry %r' % (rk,))
                else:
                    how2 = faulted(root, fn, -1, 0)[0]
                    o.check(how2 == 'done' and all(read(f) == new[f] for f in files), 'retry', msg)
            o.states += 1
            o.validated += 1
    shutil.rmtree(top, ignore_errors=True)
    return o


def run_bike(case):
    """a whole bicycle: recorded oscillations replaced, everything else kept,
    the process dying anywhere while the measured file is written"""
    o = Outcome()
    name = case['name']
    recs = case['recs']
    with Tree() as t:
        t.copy_bike(name, raw=True, par=False)
        raw = t.path('bicycles', name, 'RawData')
        f = os.path.join(raw, name + 'Measured.txt')
        before = io.load_parameter_text_file(f)
        lines = kept(split(read(f).decode()))
        want = dict(before)
        for i, (part, pend, order, key) in enumerate(recs):
            T = 1.0 + 0.25*i
            rawdata.write_mat(os.path.join(raw, rawdata.filename(name, part, pend, order)), rawdata.recording(part, pend, order, T, n=900, rate=100.))
            want[key] = T
        old = read(f)
        keep = os.path.join(t.root, 'keep')
        shutil.copytree(raw, keep)
        fn = lambda: bp.Bicycle(name, pathToData=t.root, forcePeriodCalc=True)
        how, n, log, _ = faulted(raw, fn, -1, 0)
        new = read(f)
        msg = lambda: '%s %r %s: %s' % (name, recs, how, log)
        o.check(how == 'done', 'bike:unfaulted', msg)
        got = io.load_parameter_text_file(f)
        o.check(kept(split(new.decode())) == lines, 'bike:lines-kept', msg)
        o.check(set(got) == set(want), 'bike:names', lambda: '%s %r' % (msg(), set(got) ^ set(want)))
        for k in want:
            if k in got:
                ok = abs(nom(got[k]) - want[k]) < 2e-3 if isinstance(want[k], float) and k.startswith('T') and k in [r[3] for r in recs] else same(got[k], before[k])
                o.check(ok, 'bike:values', lambda: '%s %s %r %r' % (msg(), k, got[k], want[k]))
        o.transitions += 1
        o.states += 1
        if case.get('crash'):
            for idx in range(n or 0):
                for kind in (0, 1, 2, 3, 6):
                    shutil.rmtree(raw)
                    shutil.copytree(keep, raw)
                    how, _, _, _ = faulted(raw, fn, idx, kind)
                    now = read(f)
                    m = lambda: '%s call %d (%s) %s -> %s' % (name, idx, log, KINDS[kind], how)
                    o.transitions += 1
                    o.states += 1
                    o.check(now in (old, new), 'bike:torn', m)
                    b = bp.Bicycle(name, pathToData=t.root)
                    o.check(set(b.parameters['Measured']) == (set(before) if now == old else set(want)), 'bike:reload', m)
        o.key((name, str(recs)))
        o.validated += 1
    return o


CHUNK = 1


def run(case):
    return {'files': run_files, 'crash': run_crash, 'bike': run_bike}[case['part']](case)


OPS = ['par-new', 'par-old', 'par-big', 'par-grow', 'par-shrink', 'per-small', 'per-big', 'per-shipped', 'save', 'save-rider']


def cases(tier):
    for op in OPS:
        yield {'part': 'crash', 'op': op, 'tier': tier}
    R = [('Frame', 'Torsional', 'Second', 'TtB2'), ('Fwheel', 'Compound', 'First', 'TcF1'), ('Handlebar', 'Torsional', 'Third', 'TtG3'), ('Fork', 'Compound', 'First', 'TcS1')]
    yield {'part': 'bike', 'name': 'Rigidcl', 'recs': R[:1], 'crash': True}
    yield {'part': 'bike', 'name': 'Rigidcl', 'recs': R}
    yield {'part': 'bike', 'name': 'Rigid', 'recs': R[1:3] + [('Rod', 'Torsional', 'First', 'TtP1')]}
    yield {'part': 'bike', 'name': 'Browser', 'recs': [('Fork', 'Torsional', 'First', 'TtH1'), ('Rwheel', 'Compound', 'First', 'TcR1')]}
    yield {'part': 'bike', 'name': 'Browser', 'recs': []}
    depth = 4 if tier == 'thorough' else 3
    files = (i for n in range(depth + 1) for i in itertools.product(range(len(LINES)), repeat=n))
    if tier == 'quick':
        files = (i for n in range(depth + 1) for i in itertools.product(range(len(LINES)), repeat=n) if n < 3 or len(set(i)) == 3)
    for c in chunks(files, 12):
        yield {'part': 'files', 'files': c}
