"""C08: several series on one time axis."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 3 with all times, data and the lag real for 2 and 3 series; n = 8 on fixed times for 4 series; grids up to 5 lags; all options at n = 2; missing values in either series',
          'thorough': 'n <= 4; n = 12 on fixed times for 6 series'}
ASSUMES = ['no series constant']


def series(ctx, n, m, fixed=None, opts={}, lags=1, errors=False, nan=()):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, [p for q, p in nan if q == j]) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    kw = dict(opts)
    k = ctx.real('k')
    if lags == 1:
        kw.update(min_lag=k, max_lag=k, lag_resolution=1)
    else:
        h = ctx.real('h')
        ctx.assume(h > 0)
        kw.update(min_lag=k, max_lag=k + (lags - 1) * h, lag_resolution=h)
    err = [[ctx.const(1 + i + j) for i in range(n)] for j in range(m)] if errors else None
    s = ctx.SACF(list(t), [list(x) for x in xs], err)
    L, C = s.autocorrelation(**kw)
    ctx.check(len(C) == m, 'one list per series')
    means = s.data.mean_data
    ctx.check(len(means) == m, 'one mean per series')
    for j, x in enumerate(xs):
        ctx.check(isinstance(C[j], list), 'list of lists')
        one = ctx.SACF(list(t), list(x))
        l, c = one.autocorrelation(**kw)
        ctx.check(isinstance(c, list) and not (c and isinstance(c[0], list)), 'flat list')
        ctx.eq(L, l, 'lags')
        ctx.eq(C[j], c, 'series equals the series alone')
        ctx.check(len(C[j]) == len(L), 'as long as the lags')
        ctx.eq(means[j], one.data.mean_data[0], 'mean')
        ctx.eq(means[j], mean(ctx, x), 'mean of the values')
    ctx.observe('C', C)


def single_nested(ctx, n):
    """one series given as a list of lists"""
    t = times(ctx, n)
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    k = ctx.real('k')
    a = ctx.SACF(list(t), [list(x)]).autocorrelation(min_lag=k, max_lag=k, lag_resolution=1)
    b = ctx.SACF(list(t), list(x)).autocorrelation(min_lag=k, max_lag=k, lag_resolution=1)
    ctx.eq(a[0], b[0], 'lags')
    ctx.eq(a[1], b[1], 'flat list')


def scenarios(tier):
    big = tier != 'quick'
    out = [('n2-2', series, dict(n=2, m=2)), ('n2-3', series, dict(n=2, m=3)), ('n3-2', series, dict(n=3, m=2)), ('n3-3', series, dict(n=3, m=3)),
           ('errors', series, dict(n=2, m=2, errors=True)),
           ('lags4', series, dict(n=2, m=2, lags=4)), ('lags3-fixed', series, dict(n=3, m=3, lags=3, fixed=[0, 1, 2.5])),
           ('fixed8', series, dict(n=8, m=4, fixed=irregular(8))), ('single', single_nested, dict(n=3))]
    for w in ('gaussian', 'fractional_squared'):
        out.append((w, series, dict(n=2, m=2, opts=dict(weight_function=w))))
        out.append((w + '-lags', series, dict(n=2, m=2, lags=3, fixed=[0, 1], opts=dict(weight_function=w))))
    for name, nan in (('first', ((0, 1),)), ('second', ((1, 0),)), ('last', ((1, 3),)), ('both', ((0, 2), (1, 1)))):
        out.append(('nan-' + name, series, dict(n=4, m=2, fixed=[0, 1, 2.5, 3], nan=nan)))
    out.append(('nan-real', series, dict(n=3, m=2, nan=((1, 1),))))
    out.append(('fast', series, dict(n=3, m=2, opts=dict(selection_function='fast'))))
    out.append(('fast-lags', series, dict(n=3, m=2, lags=3, fixed=[0, 1, 2.5], opts=dict(selection_function='fast'))))
    out += [('large', large.together, dict(n=90, m=3, count=4)), ('huge', large.together, dict(n=1100, m=2, count=2)), ('many', large.together, dict(n=3, m=300, count=2)), ('long', large.together, dict(n=4, m=3, count=1100))]
    if big:
        out += [('n4-2', series, dict(n=4, m=2)), ('fixed12', series, dict(n=12, m=6, fixed=irregular(12)))]
    return out
