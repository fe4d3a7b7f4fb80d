"""C09: find_correlation (python steps) and calculateStandardCorrelation (native) agree."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 3 with all times, data, grid and alpha real, up to 4 lags; n = 8 on fixed times with all lags of a symbolic grid of 3; 1 and 2 series; one value missing',
          'thorough': 'up to 7 lags; n = 4; n = 14 on fixed times'}
ASSUMES = ['lag_resolution > 0', 'data not constant', 'alpha > 0']


def agree(ctx, n, steps, m=1, fixed=None, alpha=True, nan=()):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nan if j == m - 1 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    lo = ctx.real('lo')
    hi = ctx.real('hi')
    res = ctx.real('res')
    ctx.assume(res > 0)
    ctx.assume(hi - lo <= steps * res)
    s = ctx.SACF(list(t), xs[0] if m == 1 else [list(x) for x in xs])
    kw = dict(min_lag=lo, max_lag=hi, lag_resolution=res)
    if alpha:
        a = ctx.real('alpha')
        ctx.assume(a > 0)
        kw['alpha'] = a
    L, C = s.autocorrelation(**kw)
    cor = ctx.Correlator(s.data)
    s.set_up_correlation(cor, **kw)
    s.find_correlation(cor, 'natural', 'fractional')
    ctx.eq(cor.lag_timeseries(), L, 'lags')
    ctx.eq(cor.correlations(), C if m > 1 else [C], 'correlations')
    ctx.observe('C', C)


def defaults(ctx, n, maxlags):
    t = times(ctx, n)
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    T = rel(t)
    for i in range(n - 1):
        ctx.assume(2 * T[-1] <= (maxlags - 1) * (T[i + 1] - T[i]))
    s = ctx.SACF(list(t), list(x))
    L, C = s.autocorrelation()
    cor = ctx.Correlator(s.data)
    s.find_correlation(cor)
    ctx.eq(cor.lag_timeseries(), L, 'lags')
    ctx.eq(cor.correlations(), [C], 'correlations')


def scenarios(tier):
    big = tier != 'quick'
    out = [('n2', agree, dict(n=2, steps=4 if big else 2)), ('n2-two-series', agree, dict(n=2, steps=1, m=2)),
           ('n3-fixed', agree, dict(n=3, steps=6 if big else 3, fixed=[0, 1, 2.5])),
           ('n3', agree, dict(n=3, steps=1, alpha=False)),
           ('fixed8', agree, dict(n=8, steps=1, fixed=irregular(8), alpha=False)),
           ('default3', defaults, dict(n=3, maxlags=7))]
    out += [('nan', agree, dict(n=3, steps=1, alpha=False, fixed=[0, 1, 2.5], nan=(1,))), ('nan-two-series', agree, dict(n=3, steps=1, m=2, alpha=False, fixed=[0, 1, 2.5], nan=(0,)))]
    out += [('large', large.twoways, dict(n=100, count=20)), ('long', large.twoways, dict(n=5, count=1100, m=2)), ('huge', large.twoways, dict(n=1100, count=3))]
    if big:
        out += [('n4', agree, dict(n=4, steps=0, alpha=False)), ('fixed14', agree, dict(n=14, steps=1, fixed=irregular(14), alpha=False))]
    return out
