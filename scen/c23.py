"""C23: rounding."""
from .lib import *
from . import rough

BOUNDS = {'quick': rough.BOX + '; all six option combinations', 'thorough': 'as quick, more magnitudes'}
ASSUMES = ['no overflow or underflow']


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            for amp, off in ((1, 0), (1, 1e6), (1e-6, 100), (1e6, 1e12)) + (((1e-6, 0), (1, 1e3), (1, 1e8), (1e6, 1e14)) if big else ()):
                out.append(('rounded-%s-%s-%g-%g' % (sel, w, amp, off), rough.defined, dict(amp=amp, off=off, sel=sel, weight=w)))
    out += [('rounded-n7', rough.defined, dict(amp=1, off=1e7, n=7)), ('rounded-nan', rough.defined, dict(amp=1, off=1e6, nan=(2,)))]
    return out
