"""C24: measurement errors accompany the data without entering the estimates."""
from .lib import *
from . import large

BOUNDS = {'quick': 'all times, data, errors (including NaN, zero and negative ones) and the lag real for n <= 3, fixed times n = 6; 1 to 3 series; all six option combinations',
          'thorough': 'n <= 4'}
ASSUMES = ['data not constant']


def results(ctx, s, kw):
    lags, c, cor = s.autocorrelation(return_correlator=True, **kw)
    d = s.data
    return [list(lags), c, [cor.min_lag, cor.max_lag, cor.lag_resolution, cor.alpha, d.median_time, d.max_time], list(d.mean_data), list(d.normalised_timeseries()),
            [list(v) for v in d.normalised_data()], [list(v) for v in d.data()], list(d.timeseries())]


def compare(ctx, n, m=1, sel='natural', weight='fractional', nan=(), nandata=(), fixed=None, grid=False):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nandata if j == 0 else ()) for j in range(m)]
    es = [reals(ctx, n, 'e%d_' % j, nan if j == m - 1 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    kw = dict(selection_function=sel, weight_function=weight)
    if not grid:
        k = ctx.real('k')
        kw.update(min_lag=k, max_lag=k, lag_resolution=1)
    def one(v):
        return [list(r) for r in v] if m > 1 else list(v[0])
    a = results(ctx, ctx.SACF(list(t), one(xs)), kw)
    s = ctx.SACF(list(t), one(xs), one(es))
    b = results(ctx, s, kw)
    ctx.eq(b, a, 'the same with errors')
    ctx.exact(s.data.errors(), es, 'errors')
    ctx.observe('c', a[1])


def longer(ctx, n, sel, weight):
    P, t, xs, h = large.setting(ctx, n, (0, n // 2))
    x = xs[0]
    es = large.data(ctx, n, (1, n // 2, n - 1), (2,), name='e')
    kw = dict(min_lag=2 * h, max_lag=6 * h, lag_resolution=1.5 * h, selection_function=sel, weight_function=weight)
    a = results(ctx, ctx.SACF(list(t), list(x)), kw)
    b = results(ctx, ctx.SACF(list(t), list(x), list(es)), kw)
    ctx.eq(b, a, 'the same with errors')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            for n in (2, 3, 4) if big else (2, 3):
                out.append(('%s-%s-n%d' % (sel, w, n), compare, dict(n=n, sel=sel, weight=w)))
            out += [('fixed-%s-%s' % (sel, w), compare, dict(n=6, sel=sel, weight=w, fixed=irregular(6))),
                    ('grid-%s-%s' % (sel, w), compare, dict(n=4, m=2, sel=sel, weight=w, fixed=[0, 0.5, 1.25, 3], grid=True)),
                    ('long-%s-%s' % (sel, w), longer, dict(n=400 if big else 120, sel=sel, weight=w))]
    out += [('two', compare, dict(n=3, m=2)), ('three', compare, dict(n=2, m=3)), ('nan-error', compare, dict(n=3, nan=(1,))), ('nan-errors', compare, dict(n=2, m=2, nan=(0, 1))),
            ('nan-both', compare, dict(n=4, nan=(1, 3), nandata=(1, 2), fixed=irregular(4))), ('nan-first', compare, dict(n=3, nan=(0,), nandata=(0,), sel='fast', weight='gaussian'))]
    return out
