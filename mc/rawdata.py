"""Synthetic pendulum recordings (.mat files) written by the harness."""
import os

import numpy as np
from scipy.io import savemat

ORD = ['First', 'Second', 'Third', 'Fourth', 'Fifth', 'Sixth']


def wave(t, T, amp=2.0, zeta=0.002, phase=0.0, off=0.0):
    """decaying oscillation whose (damped) period is T"""
    wd = 2*np.pi/T
    wo = wd/np.sqrt(1 - zeta**2)
    return off + amp*np.exp(-zeta*wo*t)*np.cos(wd*t + phase)


def recording(part, pendulum, order, T, rate=200.0, n=2400, form='sampleRate', angle_key='angleOrder', rod=None, trial=1, bicycle='Synth', **kw):
    """dictionary as stored in a pendulum data file"""
    t = np.arange(n)/float(rate)
    d = {'data': wave(t, T, **kw), 'part': part, 'pendulum': pendulum, angle_key: order, 'notes': '', 'trial': str(trial), 'bicycle': bicycle}
    if form == 'sampleRate':
        d['sampleRate'] = rate
        d['duration'] = n/float(rate)
    elif form == 'ActualRate':
        d['ActualRate'] = rate
        d['sampleRate'] = rate*1.7  # the requested rate, not the one achieved
        d['duration'] = n/float(rate)
    elif form == 'time':
        d['time'] = t
        d['sampleRate'] = rate*1.7
        d['duration'] = 3.0
    if rod is not None:
        d['rod'] = rod
    return d


def write_mat(path, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, d)


def filename(bicycle, part, pendulum, order, trial=1):
    return '%s%s%s%s%s.mat' % (bicycle, part, pendulum, order, trial)
