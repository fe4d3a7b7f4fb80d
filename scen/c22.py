"""C22: the same results in every include context."""
from .lib import *
from . import large

CONTEXTS = ('sandbox', 'plain', 'early')
BOUNDS = {'quick': 'three include contexts (the sandbox build, the plain project build, one with <stdlib.h>, <math.h> and the whole standard library included first); n <= 3 with all times, data, lag and alpha real, '
                   'fixed times n = 7 and (with lag and alpha at most 4) n = 4; all six option combinations; default grids up to 5 lags',
          'thorough': 'n <= 4'}
ASSUMES = ['data not constant', 'alpha > 0']


def run(ctx, t, x, k, a, sel, weight):
    kw = {} if k is None else dict(min_lag=k, max_lag=k, lag_resolution=1, alpha=a)
    s = ctx.SACF(list(t), list(x), [[1] * len(t)] * len(x) if isinstance(x[0], list) else None)
    lags, c, cor = s.autocorrelation(selection_function=sel, weight_function=weight, return_correlator=True, **kw)
    ds = s.data
    return [list(lags), [list(v) for v in c] if isinstance(x[0], list) else list(c), [cor.min_lag, cor.max_lag, cor.lag_resolution, cor.alpha], list(ds.mean_data),
            list(ds.normalised_timeseries()), [list(v) for v in ds.normalised_data()], [ds.median_time, ds.max_time]]


def same(ctx, n, sel, weight, fixed=None, grid=None, small=None, nan=(), m=1):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    if small and not fixed:
        ctx.assume(t[0] >= 0)
        ctx.assume(t[-1] <= small)
    xs = [reals(ctx, n, 'x%d_' % j, nan if j == m - 1 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    x = xs[0] if m == 1 else xs
    k = a = None
    if grid is None:
        k = ctx.real('k')
        a = ctx.real('alpha')
        ctx.assume(a > 0)
        if small:
            ctx.assume(k >= -small)
            ctx.assume(k <= small)
            ctx.assume(a <= small)
    else:
        T = rel(t)
        for i in range(n - 1):
            ctx.assume(2 * T[-1] <= (grid - 1) * (T[i + 1] - T[i]))
    res = [ctx.in_world(w, run, (t, x, k, a, sel, weight)) for w in CONTEXTS]
    for w, r in zip(CONTEXTS[1:], res[1:]):
        ctx.eq(r, res[0], 'results in context %s' % w)
    ctx.observe('c', res[0][1])


def long_run(ctx, n, sel='natural', weight='fractional'):
    P, t, xs, h = large.setting(ctx, n, (0, n // 2, n - 1), unit=False)
    not_constant(ctx, xs[0])
    k = ctx.real('k')
    ctx.assume(k > 3.3)
    ctx.assume(k < 3.32)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    res = [ctx.in_world(w, run, (t, xs[0], k, a, sel, weight)) for w in CONTEXTS]
    for w, r in zip(CONTEXTS[1:], res[1:]):
        ctx.eq(r, res[0], 'results in context %s' % w)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            for n in (2, 3, 4) if big else (2, 3):
                out.append(('%s-%s-n%d' % (sel, w, n), same, dict(n=n, sel=sel, weight=w)))
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            out.append(('small-%s-%s' % (sel, w), same, dict(n=4, sel=sel, weight=w, fixed=[0, 0.5, 1.25, 3], small=4)))
    out += [('nan', same, dict(n=3, sel='natural', weight='fractional', nan=(1,))), ('nan-fast', same, dict(n=3, sel='fast', weight='gaussian', nan=(2,))),
            ('two-series', same, dict(n=3, sel='natural', weight='fractional', m=2, fixed=[0, 1, 2.5])),
            ('two-series-nan', same, dict(n=3, sel='fast', weight='fractional_squared', m=2, fixed=[0, 1, 2.5], nan=(0,)))]
    out += [('small-grid', same, dict(n=3, sel='natural', weight='fractional', grid=7, small=4)),
            ('small-n3', same, dict(n=3, sel='natural', weight='fractional', small=3))]
    out += [('fixed7', same, dict(n=7, sel='natural', weight='fractional', fixed=irregular(7))),
            ('fixed7-fast', same, dict(n=7, sel='fast', weight='gaussian', fixed=irregular(7))),
            ('grid2', same, dict(n=2, sel='natural', weight='fractional', grid=4)),
            ('grid3', same, dict(n=3, sel='natural', weight='fractional', grid=7))]
    out += [('large', long_run, dict(n=80)), ('large-fast', long_run, dict(n=1100, sel='fast', weight='gaussian'))]
    return out
