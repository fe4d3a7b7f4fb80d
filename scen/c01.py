"""C01: the estimate at a lag is the defining sum."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'one lag per run; n <= 4 samples, all times, data and lags real; alpha default or any positive real; '
                   'n = 9 on fixed irregular times with all data and lags; default grid for n = 3 up to 7 lags',
          'thorough': 'as quick with n <= 5 and default grids up to 11 lags'}
ASSUMES = ['data not constant', 'alpha > 0 when given']


def single(ctx, n, alpha, series=1, fixed=None):
    if fixed:
        t = [ctx.const(v) for v in fixed]
    else:
        t = times(ctx, n)
    xs = [reals(ctx, n, 'xyz'[j]) for j in range(series)]
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    kw = {}
    if alpha:
        a = ctx.real('alpha')
        ctx.assume(a > 0)
        kw['alpha'] = a
    s = ctx.SACF(list(t), list(xs[0]) if series == 1 else [list(x) for x in xs])
    lags, corr = s.autocorrelation(min_lag=k, max_lag=k, lag_resolution=1, **kw)
    corr = flat(corr)
    T = rel(t)
    A = a if alpha else median(ctx, T)
    ctx.eq(lags[-1], k, 'lag')
    ctx.check(len(corr) == series, 'series')
    for x, c in zip(xs, corr):
        one_of(ctx, c[-1], natural_estimates(ctx, T, centred(ctx, x), k, A), 'c(k)')
        ctx.observe('c', c[-1])


def grid(ctx, n, maxlags):
    """every lag of the default grid"""
    t = times(ctx, n, first=0)
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    T = rel(t)
    gaps = [T[i + 1] - T[i] for i in range(n - 1)]
    for g in gaps:
        ctx.assume(2 * T[-1] <= (maxlags - 1) * g)
    lags, c = ctx.SACF(list(t), list(x)).autocorrelation()
    ctx.check(len(lags) == len(c), 'one value per lag')
    xc = centred(ctx, x)
    for k, v in zip(lags, c):
        one_of(ctx, v, natural_estimates(ctx, T, xc, k, median(ctx, T)), 'c(k)')
    ctx.observe('c', c)


FIXED = [0, 1, 1.5, 3, 4.25, 4.5, 7, 8, 10]


def scenarios(tier):
    big = tier != 'quick'
    out = [('n2', single, dict(n=2, alpha=False)), ('n2-alpha', single, dict(n=2, alpha=True)),
           ('n3', single, dict(n=3, alpha=False)), ('n3-alpha', single, dict(n=3, alpha=True)),
           ('n3-two-series', single, dict(n=3, alpha=False, series=2)),
           ('n2-three-series', single, dict(n=2, alpha=True, series=3)),
           ('n4', single, dict(n=4, alpha=False)),
           ('fixed9', single, dict(n=9, alpha=False, fixed=FIXED)),
           ('grid3', grid, dict(n=3, maxlags=11 if big else 7))]
    out += rough.offsets(rough.defined, ((1, 0), (1e-6, 1e7), (1e6, 1e7)))
    n = 400 if big else 150
    out += [('large', large.lag, dict(n=n, at=1.7)), ('large-negative', large.lag, dict(n=n, at=-3)), ('large-alpha', large.lag, dict(n=n, at=11.3, alpha=True)),
            ('large-grid', large.grid_values, dict(n=40, count=600 if big else 300))]
    out.append(('vast', large.vast, dict(n=70000, k='109/64')))
    out += [('huge', large.lag, dict(n=1100, at=1.7, width=0.001)), ('huge-grid', large.grid_values, dict(n=12, count=1100, m=2))]
    if big:
        out += [('n4-alpha', single, dict(n=4, alpha=True)), ('n5', single, dict(n=5, alpha=False))]
    return out
