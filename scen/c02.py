"""C02: natural selection pairs every kept sample with a nearest observation."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 5 samples with all times and the lag real; n = 12 and n = 20 on fixed irregular times for every real lag; iterators not reused',
          'thorough': 'n <= 6 with all times real; n = 40 on fixed irregular times for every real lag'}
ASSUMES = []


def select(ctx, n, fixed=None, series=1):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    k = ctx.real('k')
    data = [[ctx.const(i + j) for i in range(n)] for j in range(series)]
    ds = ctx.DataStructure(list(t), data[0] if series == 1 else data)
    cor = ctx.Correlator(ds)
    it = ctx.CorrelationIterator(k, series)
    cor.naturalSelectionFunctionIdx(it)
    idx = list(it.selection_indices)
    cor.deltaT(it)
    d = list(it.delta_t)
    T = rel(t)
    want = natural_pairs(ctx, T, k)
    ctx.check(len(idx) == len(want), 'which samples are kept')
    ctx.check(len(d) == len(want), 'one distance per kept sample')
    for i, opts in enumerate(want):
        j = int(idx[i])
        ctx.check(j in opts, 'partner is a nearest observation')
        ctx.eq(d[i], distance(ctx, T[i] + k, T[j]), 'distance')
    ctx.observe('d', d)


def distance(ctx, a, b):
    return b - a if ctx.sure(a < b) else a - b


def scenarios(tier):
    out = [('n%d' % n, select, dict(n=n)) for n in range(1, 6)]
    out += [('n3-two-series', select, dict(n=3, series=2)),
            ('fixed12', select, dict(n=12, fixed=irregular(12))), ('fixed20', select, dict(n=20, fixed=irregular(20)))]
    n = 400 if tier != 'quick' else 200
    out += [('large', large.select, dict(n=n, at=3.3, width=0.005)), ('large-negative', large.select, dict(n=n, at=-40, width=0.02))]
    out += [('huge', large.select, dict(n=1100, at=1.7, width=0.001))]
    if tier != 'quick':
        out += [('n6', select, dict(n=6)), ('fixed40', select, dict(n=40, fixed=irregular(40)))]
    return out
