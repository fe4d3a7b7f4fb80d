"""C10: options select the named selection and weight."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 3 with all times, data, lag and alpha > 0 real for each of the six combinations; n = 7 on fixed times; two lags per call at n = 2; unknown names from a list',
          'thorough': 'n <= 4; n = 12 on fixed times'}
ASSUMES = ['data not constant', 'alpha > 0']


def combo(ctx, n, sel, weight, fixed=None, given=True, alpha=True, m=1, two=False, nan=()):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nan if j == m - 1 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    T = rel(t)
    kw = dict(min_lag=k, max_lag=k, lag_resolution=1)
    if two:
        h = ctx.real('h')
        ctx.assume(h > 0)
        kw = dict(min_lag=k, max_lag=k + h, lag_resolution=h)
    A = median(ctx, T)
    if alpha:
        A = ctx.real('alpha')
        ctx.assume(A > 0)
        kw['alpha'] = A
    if given or sel != 'natural':
        kw['selection_function'] = sel
    if given or weight != 'fractional':
        kw['weight_function'] = weight
    lags, C = ctx.SACF(list(t), xs[0] if m == 1 else [list(x) for x in xs]).autocorrelation(**kw)
    C = C if m > 1 else [C]
    ref = natural_estimates if sel == 'natural' else fast_estimates
    for x, c in zip(xs, C):
        xc = centred(ctx, x)
        for l, v in zip(lags, c):
            one_of(ctx, v, ref(ctx, T, xc, l, A, weight), '%s/%s' % (sel, weight))
    ctx.observe('C', C)


BAD = ['', 'Fast', 'natural ', 'slow', 'gaussian', 'fractional', 'none']
BADW = ['', 'Gaussian', 'fraction', 'natural', 'fast', 'squared', 'linear']


def unknown(ctx, which):
    bad = BAD if which == 'selection_function' else BADW
    name = bad[ctx.choose(len(bad), 'name')]
    other = ctx.choose(4, 'other')
    k = ctx.real('k')
    kw = dict(min_lag=k, max_lag=k)
    kw[which] = name
    if other:
        kw['weight_function' if which == 'selection_function' else 'selection_function'] = \
            (['fractional', 'fractional_squared', 'gaussian'] if which == 'selection_function' else ['natural', 'fast', 'natural'])[other - 1]
    s = ctx.SACF([ctx.const(0), ctx.const(1), ctx.const(2.5)], [ctx.const(1), ctx.const(5), ctx.const(2)])
    try:
        s.autocorrelation(**kw)
    except Exception:
        ctx.check(True, 'error raised')
        return
    ctx.fail('unknown %s %r accepted' % (which, name))


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            b = '%s-%s' % (sel, w)
            out += [(b + '-n2', combo, dict(n=2, sel=sel, weight=w)),
                    (b + '-n3', combo, dict(n=3, sel=sel, weight=w)),
                    (b + '-fixed', combo, dict(n=12 if big else 7, sel=sel, weight=w, fixed=irregular(12 if big else 7))),
                    (b + '-two-lags', combo, dict(n=2, sel=sel, weight=w, two=True)),
                    (b + '-two-series', combo, dict(n=3, sel=sel, weight=w, m=2, fixed=[0, 1, 2.5])),
                    (b + '-nan', combo, dict(n=4, sel=sel, weight=w, fixed=[0, 1, 2.5, 3], nan=(2,))),
                    (b + '-implied', combo, dict(n=2, sel=sel, weight=w, given=False, alpha=False))]
            out.append((b + '-large', large.lag, dict(n=200 if big else 90, at=3.3, sel=sel, weight=w)))
            if big:
                out.append((b + '-n4', combo, dict(n=4, sel=sel, weight=w)))
    return out + [('unknown-selection', unknown, dict(which='selection_function')), ('unknown-weight', unknown, dict(which='weight_function'))]
