"""C06: the estimate at lag zero is one."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'all times and data real for n <= 4, one to three series, also with one value missing; n = 10 on fixed times with all data real; alpha default or any positive real',
          'thorough': 'n <= 5; n = 24 on fixed times'}
ASSUMES = ['each series is not constant', 'alpha > 0 when given']


def zero(ctx, n, weight='fractional', series=1, alpha=False, fixed=None, grid='only', nan=()):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'xyz'[j], nan if j == series - 1 else ()) for j in range(series)]
    for x in xs:
        not_constant(ctx, x)
    kw = {}
    if alpha:
        a = ctx.real('alpha')
        ctx.assume(a > 0)
        kw['alpha'] = a
    if weight != 'fractional':
        kw['weight_function'] = weight
    s = ctx.SACF(list(t), xs[0] if series == 1 else [list(x) for x in xs])
    if grid == 'only':
        kw.update(min_lag=0, max_lag=0)
    elif grid == 'around':
        r = ctx.real('r')
        lo = ctx.real('lo')
        ctx.assume(r > 0)
        ctx.assume(lo <= 0)
        ctx.assume(lo >= -2 * r)
        kw.update(min_lag=lo, max_lag=r, lag_resolution=r)
    lags, corr = s.autocorrelation(**kw)
    at = [i for i, k in enumerate(lags) if ctx.sure(ctx.eqc(k, 0))]
    ctx.check(len(at) == 1, 'lag zero is there once')
    for c in (corr if series > 1 else [corr]):
        ctx.eq(c[at[0]], 1, 'correlation at lag zero')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for w in WEIGHTS:
        out += [('%s-n%d' % (w, n), zero, dict(n=n, weight=w)) for n in range(2, 6 if big else 5)]
        out += [('%s-alpha' % w, zero, dict(n=3, weight=w, alpha=True)),
                ('%s-series2' % w, zero, dict(n=3, weight=w, series=2)),
                ('%s-around' % w, zero, dict(n=2, weight=w, grid='around')),
                ('%s-fixed' % w, zero, dict(n=10, weight=w, fixed=irregular(10)))]
    out += [('nan', zero, dict(n=4, nan=(1,))), ('nan-first', zero, dict(n=3, nan=(0,), weight='gaussian')), ('nan-series', zero, dict(n=3, series=2, nan=(2,))),
            ('series3', zero, dict(n=3, series=3)),
            ('around3', zero, dict(n=3, grid='around', fixed=[0, 1, 2.5]))]
    for w in WEIGHTS:
        out += [('rounded-%s-%g-%g' % (w, a, o), rough.zero, dict(amp=a, off=o, weight=w)) for a, o in ((1, 1e8), (1e-6, 50), (1e6, 1e13))]
    for w in WEIGHTS:
        out.append(('large-' + w, large.zero, dict(n=3000 if big else 1100, weight=w)))
    if big:
        out += [('fixed24', zero, dict(n=24, fixed=irregular(24))), ('series3-n4', zero, dict(n=4, series=3))]
    return out
