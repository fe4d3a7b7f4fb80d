"""C05: defaults of a new correlator."""
from .lib import *
from . import large
from . import rough

BOUNDS = {'quick': 'all times real for 2 <= n <= 7; n = 30 with real origin and scale on an irregular pattern; read from Correlator and from the correlator autocorrelation returns',
          'thorough': 'all times real for 2 <= n <= 10; n = 80 on an irregular pattern'}
ASSUMES = []


def verify(ctx, cor, T, smallest=True):
    ctx.eq(cor.max_lag, T[-1], 'max_lag')
    ctx.eq(cor.min_lag, -T[-1], 'min_lag')
    ctx.eq(cor.alpha, median(ctx, T), 'alpha')
    r = cor.lag_resolution
    gaps = [T[i + 1] - T[i] for i in range(len(T) - 1)]
    for g in gaps:
        ctx.le(r, g, 'lag_resolution at most every gap')
    ctx.check(ctx.any([ctx.eqc(r, g) for g in gaps]), 'lag_resolution is a gap')
    ctx.observe('defaults', [cor.max_lag, cor.min_lag, cor.alpha, r])


def direct(ctx, n, series=1):
    t = times(ctx, n)
    x = [[ctx.const(i + j) for i in range(n)] for j in range(series)]
    verify(ctx, ctx.Correlator(ctx.DataStructure(list(t), x if series > 1 else x[0])), rel(t))


def pattern(ctx, n):
    h = ctx.real('h')
    ctx.assume(h > 0)
    o = ctx.real('o')
    t = [o + h * ctx.const(v) for v in irregular(n)]
    verify(ctx, ctx.Correlator(ctx.DataStructure(list(t), [ctx.const(i % 7) for i in range(n)])), rel(t))


def returned(ctx, n, path):
    t = times(ctx, n)
    kw = {} if path == 'native' else dict(selection_function='fast')
    r = ctx.real('k')
    T = rel(t)
    cor = ctx.SACF(list(t), [ctx.const(i) for i in range(n)]).autocorrelation(min_lag=0, max_lag=0, return_correlator=True, **kw)[2]
    ctx.eq(cor.max_lag, 0, 'given max_lag')
    ctx.eq(cor.min_lag, 0, 'given min_lag')
    ctx.eq(cor.alpha, median(ctx, T), 'alpha')
    for i in range(n - 1):
        ctx.le(cor.lag_resolution, T[i + 1] - T[i], 'lag_resolution')


def vast(ctx, n):
    """more samples than 16 bits count; the last gap is real"""
    t = [ctx.const(v) for v in large.pattern(n)]
    g = ctx.real('gap')
    ctx.assume(g > 0)
    t[-1] = t[-2] + g
    verify(ctx, ctx.Correlator(ctx.DataStructure(list(t), [i % 7 for i in range(n)])), t)


def scenarios(tier):
    big = tier != 'quick'
    out = [('n%d' % n, direct, dict(n=n)) for n in range(2, 11 if big else 8)]
    out += [('n3-two-series', direct, dict(n=3, series=2)), ('n4-three-series', direct, dict(n=4, series=3)),
            ('pattern30', pattern, dict(n=30)), ('pattern31', pattern, dict(n=31)),
            ('returned', returned, dict(n=3, path='native')), ('returned-python', returned, dict(n=4, path='python'))]
    out += [('rounded-%g-%g-n%d' % (o, u, n), rough.defaults, dict(origin=o, unit=u, n=n)) for o, u, n in ((0, 1, 6), (2.4e6, 1, 6), (-1e5, 0.01, 7), (2.4e6, 100, 7))]
    out.append(('vast', vast, dict(n=70000)))
    out += [('pattern150', pattern, dict(n=150)), ('pattern301', pattern, dict(n=301)), ('pattern1100', pattern, dict(n=1100))]
    if big:
        out += [('pattern80', pattern, dict(n=80)), ('pattern81', pattern, dict(n=81))]
    return out
