"""C20: fast selection."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 5 with all times and the lag real; n = 12 and 20 on fixed times; the estimates complete for grids up to 4 lags, 1 and 2 series',
          'thorough': 'n <= 6; n = 40 on fixed times'}
ASSUMES = []


def select(ctx, n, fixed=None):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    k = ctx.real('k')
    cor = ctx.Correlator(ctx.DataStructure(list(t), [ctx.const(i) for i in range(n)]))
    it = ctx.CorrelationIterator(k, 1)
    cor.fastSelectionFunctionIdx(it)
    idx = [int(i) for i in it.selection_indices]
    cor.deltaT(it)
    d = list(it.delta_t)
    cor.getFractionWeights(it)
    cor.findCorrelation(it)
    T = rel(t)
    want = fast_pairs(ctx, T, k) or [[]]
    for i in idx:
        ctx.check(0 <= i < n, 'valid position')
    ctx.check(idx in want, 'pairs')
    ctx.check(len(d) == len(idx), 'one distance per pair')
    for i, j in enumerate(idx):
        s = T[i] + k
        ctx.eq(d[i], T[j] - s if ctx.sure(s < T[j]) else s - T[j], 'distance')
    ctx.observe('d', d)


def run(ctx, n, steps, weight, m=1, fixed=None):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [[ctx.const((3 * i + j) % 4) for i in range(n)] for j in range(m)]
    lo = ctx.real('lo')
    hi = ctx.real('hi')
    res = ctx.real('res')
    ctx.assume(res > 0)
    ctx.assume(hi - lo <= steps * res)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    lags, C = ctx.SACF(list(t), xs[0] if m == 1 else xs).autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res, alpha=a, selection_function='fast', weight_function=weight)
    C = C if m > 1 else [C]
    T = rel(t)
    for x, c in zip(xs, C):
        ctx.check(len(c) == len(lags), 'one value per lag')
        xc = centred(ctx, x)
        for l, v in zip(lags, c):
            one_of(ctx, v, fast_estimates(ctx, T, xc, l, a, weight), 'estimate')


def default(ctx, n, maxlags):
    t = times(ctx, n)
    T = rel(t)
    for i in range(n - 1):
        ctx.assume(2 * T[-1] <= (maxlags - 1) * (T[i + 1] - T[i]))
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    lags, c = ctx.SACF(list(t), list(x)).autocorrelation(selection_function='fast')
    ctx.check(len(lags) == len(c), 'one value per lag')
    for l, v in zip(lags, c):
        one_of(ctx, v, fast_estimates(ctx, T, centred(ctx, x), l, median(ctx, T)), 'estimate')


def scenarios(tier):
    big = tier != 'quick'
    out = [('n%d' % n, select, dict(n=n)) for n in range(1, 7 if big else 6)]
    out += [('fixed12', select, dict(n=12, fixed=irregular(12))), ('fixed20', select, dict(n=20, fixed=irregular(20)))]
    for w in WEIGHTS:
        out.append(('run-' + w, run, dict(n=2, steps=2, weight=w)))
        out.append(('run-fixed-' + w, run, dict(n=3, steps=3, weight=w, fixed=[0, 1, 2.5])))
    out += [('run-two-series', run, dict(n=3, steps=2, weight='fractional', m=2, fixed=[0, 1, 2.5])),
            ('default2', default, dict(n=2, maxlags=4)), ('default3', default, dict(n=3, maxlags=9 if big else 7))]
    out += [('large', large.select, dict(n=200, at=3.3, fast=True, width=0.02)), ('large-negative', large.select, dict(n=200, at=-40, fast=True, width=0.02)), ('huge', large.select, dict(n=1100, at=1.7, fast=True, width=0.001)), ('long', large.grid_values, dict(n=20, count=200, path='fast'))]
    if big:
        out.append(('fixed40', select, dict(n=40, fixed=irregular(40))))
    return out
