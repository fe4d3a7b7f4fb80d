"""C25: the estimate at a lag does not depend on the other lags computed with it."""
from .lib import *
from . import large

BOUNDS = {'quick': 'all times, data and the lag real for n <= 3 with a neighbour lag on either side; fixed times with up to 4 real lags; grids of up to 60 lags (real unit) against each lag alone; one lag under any resolution and range; all six option combinations, 1 and 2 series',
          'thorough': 'n <= 4; grids of up to 200 lags'}
ASSUMES = ['data not constant', 'lag_resolution > 0']


def run(ctx, t, xs, lo, hi, res, kw):
    lags, C = ctx.SACF(list(t), [list(x) for x in xs] if len(xs) > 1 else list(xs[0])).autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res, **kw)
    return list(lags), [list(c) for c in C] if len(xs) > 1 else [list(C)]


def at(ctx, lags, C, i):
    return [c[i] for c in C]


def neighbours(ctx, n, sel, weight, m=1, fixed=None, nan=()):
    """k with k - r before it and k + r after it, against k alone"""
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j, nan if j == 0 else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    r = ctx.real('r') if fixed else ctx.const(1)
    if fixed:
        ctx.assume(r > 0)
    kw = dict(selection_function=sel, weight_function=weight)
    L, alone = run(ctx, t, xs, k, k, r, kw)
    want = at(ctx, L, alone, -1)
    L, C = run(ctx, t, xs, k - r, k, r, kw)
    ctx.eq(L[-1], k, 'lag')
    ctx.eq(at(ctx, L, C, -1), want, 'after another lag')
    L, C = run(ctx, t, xs, k, k + r, r, kw)
    i = 1 if ctx.sure(k > 0) else 0
    ctx.eq(L[i], k, 'lag')
    ctx.eq(at(ctx, L, C, i), want, 'before another lag')
    ctx.observe('c', want)


def window(ctx, n, sel, weight, m=1, fixed=None):
    """one lag with any resolution and any range that holds no other"""
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, n)
    xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    kw = dict(selection_function=sel, weight_function=weight)
    L, C = run(ctx, t, xs, k, k, 1, kw)
    r = ctx.real('r')
    ctx.assume(r > 0)
    w = ctx.real('w')
    ctx.assume(w >= 0)
    ctx.assume(w < r)
    M, D = run(ctx, t, xs, k, k + w, r, kw)
    ctx.eq(M, L, 'lags')
    ctx.eq(D, C, 'with another resolution and range')


def listed(ctx, n, count, sel, weight, m=1, n0=2):
    """every lag of a grid against the lag alone"""
    P, t, xs, h = large.setting(ctx, n, (0, n // 2), m=m)
    kw = dict(selection_function=sel, weight_function=weight)
    L, C = run(ctx, t, xs, -n0 * h, (count - 1 - n0) * h, h, kw)
    ctx.check(len(L) == count, 'number of lags')
    for i in range(count):
        a, B = run(ctx, t, xs, (i - n0) * h, (i - n0) * h, h, kw)
        ctx.eq(L[i], a[-1], 'lag')
        ctx.eq(at(ctx, L, C, i), at(ctx, a, B, -1), 'the lag alone')


def finer(ctx, n, sel, weight, split):
    """a grid with more lags between, and one reaching further"""
    P, t, xs, h = large.setting(ctx, n, (1,))
    kw = dict(selection_function=sel, weight_function=weight)
    L, C = run(ctx, t, xs, -2 * h, 6 * h, h, kw)
    M, D = run(ctx, t, xs, -2 * h, 6 * h, h / split, kw)
    ctx.check(len(M) == 8 * split + 1, 'number of lags')
    ctx.eq(M[::split], L, 'lags')
    ctx.eq(D[0][::split], C[0], 'on a finer grid')
    M, D = run(ctx, t, xs, -9 * h, 40 * h, h, kw)
    ctx.eq(M[7:16], L, 'lags')
    ctx.eq(D[0][7:16], C[0], 'on a wider grid')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for sel in ('natural', 'fast'):
        for w in WEIGHTS:
            b = '%s-%s' % (sel, w)
            out.append((b + '-n2', neighbours, dict(n=2, sel=sel, weight=w)))
            out.append((b + '-window', window, dict(n=2, sel=sel, weight=w)))
            out.append((b + '-window-fixed', window, dict(n=5, sel=sel, weight=w, fixed=[0, 1, 2.5, 7, 9])))
            if big or (sel, w) in (('natural', 'fractional'), ('fast', 'gaussian')):
                out.append((b + '-n3', neighbours, dict(n=3, sel=sel, weight=w)))
            out += [(b + '-fixed', neighbours, dict(n=4, sel=sel, weight=w, fixed=[0, 0.5, 1.75, 3])),
                    (b + '-listed', listed, dict(n=12, count=200 if big else 60, sel=sel, weight=w)),
                    (b + '-finer', finer, dict(n=20, sel=sel, weight=w, split=4))]
            if big:
                out.append((b + '-fixed6', neighbours, dict(n=6, sel=sel, weight=w, fixed=irregular(6))))
    out += [('two-series', neighbours, dict(n=3, m=2, sel='natural', weight='fractional', fixed=[0, 1, 2.5])), ('nan', neighbours, dict(n=4, nan=(1,), sel='natural', weight='fractional', fixed=[0, 1, 2.5, 3])),
            ('nan-fast', neighbours, dict(n=3, nan=(2,), m=2, sel='fast', weight='fractional_squared', fixed=[0, 1, 2.5])),
            ('listed-two', listed, dict(n=6, count=40, sel='natural', weight='fractional', m=2)),
            ('listed-large', listed, dict(n=150, count=6, sel='natural', weight='fractional')), ('listed-positive', listed, dict(n=8, count=30, sel='natural', weight='fractional', n0=0)),
            ('listed-negative', listed, dict(n=8, count=30, sel='natural', weight='gaussian', n0=20))]
    return out
