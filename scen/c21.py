"""C21: evenly spaced series."""
from .lib import *
from . import large

BOUNDS = {'quick': 'n <= 8 evenly spaced samples with real origin, spacing, data and alpha > 0 (given or default), all lags m*h >= 0 in one grid and singly; the range [-1,1] for n <= 4; n = 16 with fixed spacing',
          'thorough': 'n <= 12; n = 30 with fixed spacing'}
ASSUMES = ['data not constant', 'alpha > 0 when given']


def even(ctx, n, alpha, grid, fixed=False, bound=False, m=1):
    if fixed:
        h = ctx.const(0.5)
        o = ctx.const(3)
    else:
        o = ctx.real('o')
        h = ctx.real('h')
        ctx.assume(h > 0)
    t = [o + i * h for i in range(n)]
    xs = [reals(ctx, n, 'x%d_' % j) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    kw = {}
    if alpha:
        kw['alpha'] = ctx.real('alpha')
        ctx.assume(kw['alpha'] > 0)
    s = ctx.SACF(list(t), xs[0] if m == 1 else [list(x) for x in xs])
    if grid == 'all':
        lags, C = s.autocorrelation(min_lag=0, **kw)
        first = 0
    elif grid == 'default':
        lags, C = s.autocorrelation(**kw)
        first = n - 1
    else:
        first = ctx.choose(n, 'm')
        lags, C = s.autocorrelation(min_lag=first * h, max_lag=first * h, lag_resolution=h, **kw)
        if first:
            lags = lags[1:]
            C = C[1:] if m == 1 else [c[1:] for c in C]
        first = -first
    if grid != 'single':
        ctx.check(len(lags) == (n if grid == 'all' else 2 * n - 1), 'number of lags')
    for i, l in enumerate(lags[max(first, 0):]):
        p = i - min(first, 0)
        ctx.eq(l, p * h, 'lag')
        for x, c in zip(xs, C if m > 1 else [C]):
            v = c[max(first, 0) + i]
            xc = centred(ctx, x)
            want = ctx.div(total([xc[q] * xc[q + p] for q in range(n - p)]), sumsq(ctx, xc))
            ctx.eq(v, want, 'classical autocorrelation')
            if bound:
                ctx.le(v, 1, 'at most 1')
                ctx.le(-1, v, 'at least -1')
    ctx.observe('C', C)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for n in range(2, 13 if big else 9):
        out.append(('all-n%d' % n, even, dict(n=n, alpha=n % 2 == 0, grid='all')))
        out.append(('single-n%d' % n, even, dict(n=n, alpha=n % 2 == 1, grid='single')))
    for n in (2, 3, 4, 5):
        out.append(('default-n%d' % n, even, dict(n=n, alpha=False, grid='default')))
    out += [('bound-n2', even, dict(n=2, alpha=False, grid='all', bound=True)), ('bound-n3', even, dict(n=3, alpha=False, grid='all', bound=True)),
            ('two-series', even, dict(n=4, alpha=True, grid='all', m=2)),
            ('n16', even, dict(n=16, alpha=False, grid='all', fixed=True))]
    out += [('large', large.even, dict(n=150 if big else 80))]
    if big:
        out += [('n30', even, dict(n=30, alpha=False, grid='all', fixed=True))]
    return out
