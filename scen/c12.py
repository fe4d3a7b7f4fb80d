"""C12: all results are computed without touching memory outside live elements.
Every load and store of the encoded code is checked; nothing else is asserted but the sizes."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 4 samples with all times real, 1 to 3 series, data real or NaN; lag grids of at most 6 real lags anywhere, grids of 40 lags with a real scale; step operations in documented order, repeated up to twice',
          'thorough': 'n <= 5; grids of at most 9 real lags, 150 with a real scale'}
ASSUMES = ['lag_resolution > 0']


def sizes(ctx, lags, C, m):
    C = C if m > 1 else [C]
    ctx.check(len(C) == m, 'series')
    for c in C:
        ctx.check(len(c) == len(lags), 'one value per lag')


def options(path):
    return {'native': {}, 'gaussian': dict(weight_function='gaussian'), 'fast': dict(selection_function='fast'),
            'squared': dict(weight_function='fractional_squared')}[path]


def dataset(ctx, n, m, nans=False, fixed=None, values=False):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = []
    for j in range(m):
        row = []
        for i in range(n):
            if nans and ctx.choose(2, 'nan%d_%d' % (j, i)):
                row.append(ctx.NAN)
            else:
                row.append(ctx.real('x%d_%d' % (j, i)) if values else ctx.const((i * 7 + j * 3) % 5))
        xs.append(row)
    return t, xs


def one_lag(ctx, n, m, path, nans=False):
    t, xs = dataset(ctx, n, m, nans)
    k = ctx.real('k')
    lags, C = ctx.SACF(t, xs if m > 1 else xs[0]).autocorrelation(min_lag=k, max_lag=k, lag_resolution=1, **options(path))
    sizes(ctx, lags, C, m)


def grid(ctx, steps, m, path, fixed=(0, 1, 3)):
    t, xs = dataset(ctx, len(fixed), m, fixed=fixed)
    lo = ctx.real('lo')
    hi = ctx.real('hi')
    res = ctx.real('res')
    ctx.assume(res > 0)
    ctx.assume(hi - lo <= steps * res)
    lags, C = ctx.SACF(t, xs if m > 1 else xs[0]).autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res, **options(path))
    sizes(ctx, lags, C, m)


def only(ctx, which, steps, path, m=1):
    """one parameter given: grids wider or finer than the default"""
    t, xs = dataset(ctx, 3, m)
    T = rel(t)
    kw = {which: ctx.real('p')}
    p = kw[which]
    g = T[1] - T[0]
    h = T[2] - T[1]
    ctx.assume(2 * T[-1] <= steps * g)
    ctx.assume(2 * T[-1] <= steps * h)
    if which == 'lag_resolution':
        ctx.assume(p > 0)
        ctx.assume(2 * T[-1] <= 2 * steps * p)
    elif which == 'max_lag':
        ctx.assume(p <= 2 * T[-1])
    else:
        ctx.assume(p >= -2 * T[-1])
    lags, C = ctx.SACF(t, xs if m > 1 else xs[0]).autocorrelation(**dict(kw, **options(path)))
    sizes(ctx, lags, C, m)


def single(ctx, m, path):
    """one sample, everything by default"""
    t, xs = dataset(ctx, 1, m, values=True)
    lags, C = ctx.SACF(t, xs if m > 1 else xs[0]).autocorrelation(**options(path))
    sizes(ctx, lags, C, m)


def long_grid(ctx, count, m, path):
    h = ctx.real('h')
    ctx.assume(h > 0)
    ctx.assume(h < 1)
    t, xs = dataset(ctx, 3, m, fixed=[0, 1, 3])
    lags, C = ctx.SACF(t, xs if m > 1 else xs[0]).autocorrelation(min_lag=-(count // 3) * h, max_lag=(count - count // 3) * h, lag_resolution=h, **options(path))
    sizes(ctx, lags, C, m)


def steps(ctx, n, m, sel):
    """step operations with results stored at chosen positions"""
    t, xs = dataset(ctx, n, m)
    cor = ctx.Correlator(ctx.DataStructure(t, xs if m > 1 else xs[0]))
    a = ctx.choose(4, 'first position')
    b = ctx.choose(4, 'second position')
    for i, name in ((a, 'k'), (b, 'l')):
        it = ctx.CorrelationIterator(ctx.real(name), m)
        getattr(cor, sel)(it)
        cor.deltaT(it)
        (cor.getFractionWeights, cor.getGaussianWeights, cor.getFractionSquaredWeights)[ctx.choose(3, 'weights' + name)](it)
        cor.findCorrelation(it)
        cor.addCorrelationData(it, i)
    c = ctx.choose(4, 'kept')
    cor.cleanCorrelationData(c)
    ctx.check(len(cor.lag_timeseries()) == c, 'lags kept')
    for row in cor.correlations():
        ctx.check(len(row) == c, 'values kept')


def reuse(ctx, m, path):
    """computing again on the same correlator, with longer and shorter grids"""
    t, xs = dataset(ctx, 3, m, fixed=[0, 1, 3])
    s = ctx.SACF(t, xs if m > 1 else xs[0])
    lags, C, cor = s.autocorrelation(min_lag=0, max_lag=ctx.choose(3, 'first'), lag_resolution=1, return_correlator=True, **options(path))
    if ctx.choose(2, 'clear'):
        cor.clearCorrelation()
    h = ctx.real('h')
    ctx.assume(h <= 5)
    cor.max_lag = h
    cor.min_lag = -1
    if path == 'native':
        cor.calculateStandardCorrelation()
    else:
        s.find_correlation(cor, **options(path))
    lags = cor.lag_timeseries()
    for row in cor.correlations():
        ctx.check(len(row) == len(lags), 'one value per lag')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for p in ('native', 'gaussian', 'fast', 'squared'):
        for n in range(1, 6 if big else 5):
            out.append(('one-lag-n%d-%s' % (n, p), one_lag, dict(n=n, m=1, path=p)))
        out += [('one-lag-3-series-' + p, one_lag, dict(n=2, m=3, path=p)),
                ('nan-' + p, one_lag, dict(n=3, m=1, path=p, nans=True)),
                ('nan-2-' + p, one_lag, dict(n=2, m=2, path=p, nans=True)),
                ('grid-' + p, grid, dict(steps=5 if big else 3, m=1, path=p)),
                ('long-' + p, long_grid, dict(count=150 if big else 40, m=2, path=p)),
                ('single-' + p, single, dict(m=1, path=p)), ('single-2-' + p, single, dict(m=2, path=p)),
                ('reuse-' + p, reuse, dict(m=2, path=p))]
        for w in ('min_lag', 'max_lag', 'lag_resolution'):
            out.append(('only-%s-%s' % (w, p), only, dict(which=w, steps=6 if big else 5, path=p)))
    for m in (2, 3):
        out.append(('grid-%d-series' % m, grid, dict(steps=6 if big else 4, m=m, path='native')))
        out.append(('only-resolution-%d-series' % m, only, dict(which='lag_resolution', steps=5, path='native', m=m)))
    for p in ('native', 'gaussian', 'fast', 'squared'):
        out += [('longer-' + p, large.grid, dict(n=3, count=3000 if big else 1100, path=p))]
    out += [('large', large.grid, dict(n=1100, count=3)), ('large-fast', large.grid, dict(n=1100, count=5, path='fast', m=2)), ('many-series', large.together, dict(n=3, m=300, count=2))]
    for sel in ('naturalSelectionFunctionIdx', 'fastSelectionFunctionIdx'):
        out.append(('steps-' + sel, steps, dict(n=2, m=1, sel=sel)))
        out.append(('steps-2-' + sel, steps, dict(n=2, m=2, sel=sel)))
    return out
