"""C17: NaN data values are ignored."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'n <= 4 with all times, lag and non-NaN values real and every placement of NaN leaving two values; two series at n = 3; n = 8 on fixed times; all options at n = 3',
          'thorough': 'n <= 5'}
ASSUMES = ['the non-NaN values of each series are not all equal']


def place(ctx, n, j=0, few=False):
    x = []
    for i in range(n):
        if ctx.choose(2, 'nan%d_%d' % (j, i)):
            x.append(ctx.NAN)
        else:
            x.append(ctx.real('x%d_%d' % (j, i)))
    ok = [v for v in x if not ctx.isnan(v)]
    ctx.assume(len(ok) >= 2)
    if few:
        ctx.assume(n - len(ok) <= 2)
    not_constant(ctx, x)
    return x


def nan_lag(ctx, n, m=1, sel='natural', weight='fractional', fixed=None, alpha=False, two=False):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [place(ctx, n, j, few=fixed is not None) for j in range(m)]
    k = ctx.real('k')
    T = rel(t)
    kw = dict(min_lag=k, max_lag=k, lag_resolution=1)
    if two:
        h = ctx.real('h')
        ctx.assume(h > 0)
        kw = dict(min_lag=k, max_lag=k + h, lag_resolution=h)
    A = median(ctx, T)
    if sel != 'natural':
        kw['selection_function'] = sel
    if weight != 'fractional':
        kw['weight_function'] = weight
    s = ctx.SACF(list(t), list(xs[0]) if m == 1 else [list(x) for x in xs])
    ds = s.data
    ctx.exact(ds.data(), xs, 'data getter')
    ctx.eq(ds.mean_data, [mean(ctx, x) for x in xs], 'means')
    ctx.eq(ds.normalised_data(), [centred(ctx, x) for x in xs], 'centred data')
    lags, C = s.autocorrelation(**kw)
    C = C if m > 1 else [C]
    ref = natural_estimates if sel == 'natural' else fast_estimates
    for x, c in zip(xs, C):
        xc = centred(ctx, x)
        for l, v in zip(lags, c):
            one_of(ctx, v, ref(ctx, T, xc, l, A, weight), 'estimate without the missing values')
    ctx.observe('C', C)


def scenarios(tier):
    big = tier != 'quick'
    out = [('n%d' % n, nan_lag, dict(n=n)) for n in range(2, 6 if big else 5)]
    out += [('two-series', nan_lag, dict(n=3, m=2, fixed=[0, 1, 2.5])), ('two-series-n2', nan_lag, dict(n=2, m=2)),
            ('two-series-n3', nan_lag, dict(n=3, m=2)), ('three-series', nan_lag, dict(n=3, m=3, fixed=[0, 1, 2.5])),
            ('fixed6', nan_lag, dict(n=6, fixed=irregular(6))),
            ('two-lags', nan_lag, dict(n=3, fixed=[0, 1, 2.5], two=True))]
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            if (sel, w) != ('natural', 'fractional'):
                out.append(('%s-%s' % (sel, w), nan_lag, dict(n=3, sel=sel, weight=w)))
    out += [('rounded-%d' % i, rough.defined, dict(amp=1, off=1e6, nan=(i,))) for i in (0, 3, 5)]
    out += [('large', large.lag, dict(n=100, at=3.3, nan=(0, 17, 18, 64, 99))), ('large-fast', large.lag, dict(n=1100, at=3.3, nan=(1, 50, 198, 1099), sel='fast', weight='gaussian', m=2, width=0.001))]
    if big:
        out.append(('fixed8', nan_lag, dict(n=8, fixed=irregular(8))))
    return out
