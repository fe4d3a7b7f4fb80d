"""C07: shifting times or data, scaling data, scaling times."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'n <= 3 with all times, data, lag and the shift or factor real, one lag; n = 6 on fixed times; default grids for n = 3 up to 5 lags; all weights at n = 2, both selections; two series; one value missing',
          'thorough': 'n <= 4; default grids up to 9 lags'}
ASSUMES = ['data not constant', 'scale factor of times > 0, of data not 0']


def both(ctx, t, x, t2, x2, kw, kw2, scale=None):
    l1, c1 = ctx.SACF(t, x).autocorrelation(**kw)
    l2, c2 = ctx.SACF(t2, x2).autocorrelation(**kw2)
    ctx.check(len(l1) == len(l2), 'same number of lags')
    for a, b in zip(l1, l2):
        ctx.eq(a if scale is None else scale * a, b, 'lag')
    ctx.eq(c1, c2, 'correlations')
    ctx.observe('c', c1)


def change(ctx, n, what, fixed=None, grid=None, opts={}, alpha=False, nan=(), m=1):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nan if j == m - 1 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    c = ctx.real('c')
    if what == 'time-scale':
        ctx.assume(c > 0)
    if what == 'data-scale':
        ctx.assume(ctx.not_(ctx.eqc(c, 0)))
    kw = dict(opts)
    if grid is None:
        k = ctx.real('k')
        kw.update(min_lag=k, max_lag=k, lag_resolution=1)
    else:
        T = rel(t)
        for i in range(n - 1):
            ctx.assume(2 * T[-1] <= (grid - 1) * (T[i + 1] - T[i]))
    if alpha:
        a = ctx.real('alpha')
        ctx.assume(a > 0)
        kw['alpha'] = a
    t2, xs2, kw2 = t, xs, dict(kw)
    if what == 'time-shift':
        t2 = [v + c for v in t]
    elif what == 'data-shift':
        xs2 = [[v + c for v in x] for x in xs]
    elif what == 'data-scale':
        xs2 = [[v * c for v in x] for x in xs]
    else:
        t2 = [v * c for v in t]
        for p in ('min_lag', 'max_lag', 'lag_resolution', 'alpha'):
            if p in kw:
                kw2[p] = c * kw[p]
    shape = (lambda l: list(l[0])) if m == 1 else (lambda l: [list(x) for x in l])
    both(ctx, list(t), shape(xs), list(t2), shape(xs2), kw, kw2, c if what == 'time-scale' else None)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for w in ('time-shift', 'data-shift', 'data-scale', 'time-scale'):
        for n in (2, 3, 4) if big else (2, 3):
            out.append(('%s-n%d' % (w, n), change, dict(n=n, what=w)))
        out += [('%s-fixed' % w, change, dict(n=6, what=w, fixed=irregular(6))),
                ('%s-grid' % w, change, dict(n=3, what=w, grid=9 if big else 7)),
                ('%s-alpha' % w, change, dict(n=2, what=w, alpha=True))]
        for f in ('gaussian', 'fractional_squared'):
            out.append(('%s-%s' % (w, f), change, dict(n=2, what=w, opts=dict(weight_function=f))))
        out += [('%s-nan' % w, change, dict(n=3, what=w, nan=(1,))), ('%s-two-series' % w, change, dict(n=3, what=w, m=2, fixed=[0, 1, 2.5]))]
        out.append(('%s-fast' % w, change, dict(n=3, what=w, opts=dict(selection_function='fast'))))
    for w in ('time-shift', 'data-shift', 'data-scale', 'time-scale'):
        out.append(('large-' + w, large.changed, dict(n=200 if big else 100, what=w, at=2.6)))
    out += rough.offsets(rough.shifted, ((1, 1e8), (1e-6, 1e7), (1e6, 1e7), (1, 1e3)))
    out += [('rounded-shifted-fast', rough.shifted, dict(amp=1, off=1e7, sel='fast', weight='gaussian'))]
    for a in (1e-6, 1e6, -3):
        out.append(('rounded-scaled-%g' % a, rough.scaled, dict(amp=a)))
    for o, u in ((2.4e6, 1), (-1e4, 0.001), (1e9, 1000)):
        out.append(('rounded-moved-%g-%g' % (o, u), rough.moved, dict(origin=o, unit=u)))
    for u in (1e-5, 86400):
        out.append(('rounded-units-%g' % u, rough.units, dict(unit=u)))
    return out
