"""C04: which lags are computed."""
from .lib import *
from . import large

BOUNDS = {'quick': 'min_lag, max_lag, resolution > 0 and (where not fixed) times real with at most 5 grid steps; both computation paths; 1 and 2 series; '
                   'default grids of n <= 3 samples with at most 7 lags, of one sample; long grids (up to 40 lags) with symbolic scale',
          'thorough': 'at most 9 grid steps; default grids of n <= 4 samples with at most 9 lags'}
ASSUMES = ['lag_resolution > 0']


def expected(ctx, lo, hi, res, limit):
    out = []
    seen = False
    k = lo
    while ctx.sure(k <= hi):
        if len(out) > limit:
            ctx.fail('more grid points than the bound allows')
        if ctx.sure(k >= 0):
            if not seen and ctx.sure(k > 0):
                out.append(0)
            seen = True
        out.append(k)
        k = k + res
    return out


def verify(ctx, lags, corr, want, series):
    ctx.eq(lags, want, 'lags')
    corr = corr if series > 1 else [corr]
    ctx.check(len(corr) == series, 'number of series')
    for c in corr:
        ctx.check(len(c) == len(want), 'one correlation per lag')
    ctx.observe('lags', lags)


def custom(ctx, steps, path, series, unit=None):
    lo = ctx.real('lo')
    hi = ctx.real('hi')
    res = ctx.real('res')
    if unit:
        ctx.unit(unit)
        for v in (lo, hi, res):
            ctx.assume(v < unit)
            ctx.assume(v > -unit)
        ctx.assume(res > unit / 64)
    ctx.assume(res > 0)
    ctx.assume(hi - lo <= steps * res)
    t = [ctx.const(v) for v in (0, 1, 3)]
    x = [[ctx.const(v) for v in r] for r in ([1, 4, 2], [0, 0, 5])]
    s = ctx.SACF(t, x[0] if series == 1 else x)
    kw = {} if path == 'native' else dict(weight_function='gaussian') if path == 'python' else dict(selection_function='fast')
    lags, corr = s.autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res, **kw)
    verify(ctx, lags, corr, expected(ctx, lo, hi, res, steps + 2), series)


def default(ctx, n, maxlags, path):
    t = times(ctx, n)
    T = rel(t)
    for i in range(n - 1):
        ctx.assume(2 * T[-1] <= (maxlags - 1) * (T[i + 1] - T[i]))
    kw = {} if path == 'native' else dict(weight_function='fractional_squared')
    lags, corr = ctx.SACF(t, [ctx.const(i * i) for i in range(n)]).autocorrelation(**kw)
    gap = T[1] - T[0]
    for i in range(1, n - 1):
        g = T[i + 1] - T[i]
        if ctx.sure(g < gap):
            gap = g
    verify(ctx, lags, corr, expected(ctx, -T[-1], T[-1], gap, maxlags + 2), 1)


def single(ctx, path, series):
    """one sample: the default grid is lag 0"""
    kw = {} if path == 'native' else dict(weight_function='gaussian') if path == 'python' else dict(selection_function='fast')
    xs = [[ctx.real('x%d' % j)] for j in range(series)]
    t = ctx.real('t')
    lags, corr = ctx.SACF([t], xs if series > 1 else xs[0]).autocorrelation(**kw)
    verify(ctx, lags, corr, [0], series)
    lo = ctx.real('lo')
    ctx.assume(lo > -3)
    lags, corr = ctx.SACF([t], xs if series > 1 else xs[0]).autocorrelation(min_lag=lo, lag_resolution=1, **kw)
    verify(ctx, lags, corr, expected(ctx, lo, 0, 1, 6), series)


def longer(ctx, lo, hi, path):
    """a long grid: lo*h .. hi*h in steps of h"""
    h = ctx.real('h')
    ctx.assume(h > 0)
    ctx.assume(h < 1000)
    t = [ctx.const(v) for v in (0, 1, 3)]
    kw = {} if path == 'native' else dict(weight_function='fractional_squared')
    lags, corr = ctx.SACF(t, [ctx.const(v) for v in (1, 4, 2)]).autocorrelation(min_lag=lo * h, max_lag=hi * h, lag_resolution=h, **kw)
    verify(ctx, lags, corr, expected(ctx, lo * h, hi * h, h, 200), 1)


def scenarios(tier):
    big = tier != 'quick'
    st = 9 if big else 5
    out = []
    for p in ('native', 'python'):
        out += [('custom-' + p, custom, dict(steps=st, path=p, series=1)),
                ('default2-' + p, default, dict(n=2, maxlags=4, path=p)),
                ('default3-' + p, default, dict(n=3, maxlags=9 if big else 7, path=p)),
                ('long-' + p, longer, dict(lo=-12, hi=40 if big else 27, path=p)),
                ('long-positive-' + p, longer, dict(lo=3.5, hi=23.25, path=p)),
                ('long-negative-' + p, longer, dict(lo=-31.5 if big else -14.5, hi=-2, path=p))]
    out += [('custom-two-series', custom, dict(steps=st - 2, path='native', series=2)),
            ('custom-two-series-python', custom, dict(steps=3, path='python', series=2)),
            ('custom-fast', custom, dict(steps=3, path='fast', series=1))]
    for p in ('native', 'python', 'fast'):
        out.append(('large-' + p, large.grid, dict(n=4, count=3000 if big else 1100, path=p)))
    for p in ('native', 'python'):
        out.append(('tiny-' + p, custom, dict(steps=st - 2, path=p, series=1, unit=2.0 ** -23)))
    out += [('single-%s-%d' % (p, m), single, dict(path=p, series=m)) for p in ('native', 'python', 'fast') for m in (1, 2)]
    out.append(('vast', large.vast_grid, dict(count=70000)))
    out.append(('large-positive', large.grid, dict(n=4, count=300, m=2, zero=False)))
    if big:
        out.append(('default4', default, dict(n=4, maxlags=9, path='native')))
    return out
