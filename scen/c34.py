"""C34: every computation comes to an end."""
from .lib import *

BOUNDS = {'quick': 'the limits, the resolution and alpha each real, NaN or infinite of either sign, given or left out, on grids of at most 3 steps where the resolution is positive; '
                   'limits a few units in the last place apart (at 1 and 2^53, either side) with resolutions of a quarter to three halves of such a unit, rounded as doubles are; times with equal neighbours, all times real (n <= 3); values NaN or constant; all option combinations, native and by steps',
          'thorough': 'grids of at most 6 steps; n <= 4'}
ASSUMES = ['where the resolution is positive and the limits are finite, at most the stated number of steps']

OPTIONS = [(s, w) for s in ('natural', 'fast') for w in ('fractional', 'fractional_squared', 'gaussian')]
PATH_STEPS = 400000
KINDS = ('real', 'nan', 'inf', '-inf')


def value(ctx, name, kinds=KINDS):
    k = kinds[ctx.choose(len(kinds), name + ' is')]
    return ctx.real(name) if k == 'real' else ctx.NAN if k == 'nan' else ctx.const(float(k))


def finite(ctx, v):
    return not ctx.isnan(v) and not ctx.sure(v == ctx.const(float('inf'))) and not ctx.sure(v == ctx.const(float('-inf')))


def ends(ctx, f, lo, hi, res):
    """no lags if the limits leave none; refused exactly if the grid cannot be walked; else one value per lag"""
    some = not ctx.isnan(lo) and not ctx.isnan(hi) and ctx.sure(lo <= hi)
    walks = some and finite(ctx, lo) and finite(ctx, hi) and not ctx.isnan(res) and ctx.sure(res > 0)
    try:
        lags, C = f()
    except ValueError:
        ctx.check(some and not walks, 'a grid that can be walked is refused')
        return
    ctx.check(walks or not some, 'a grid that cannot be walked gives a result')
    ctx.check((len(lags) > 0) == some, 'lags')
    for c in flat(C):
        ctx.check(len(c) == len(lags), 'one value per lag')


def data(ctx, n, what='fixed'):
    return [ctx.NAN if what == 'nan' else ctx.const(2 if what == 'constant' else (3 * i * i + i) % 7) for i in range(n)]


def parameters(ctx, sel, weight, steps, kinds=KINDS, what='fixed', times_=(0, 1, 3)):
    t = [ctx.const(v) for v in times_]
    s = ctx.SACF(list(t), data(ctx, len(t), what))
    lo, hi, res = value(ctx, 'lo', kinds), value(ctx, 'hi', kinds), value(ctx, 'res')
    if all(finite(ctx, v) for v in (lo, hi, res)):
        if ctx.sure(res > 0):
            ctx.assume(hi - lo < steps * res)
    ends(ctx, lambda: s.autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=res, selection_function=sel, weight_function=weight), lo, hi, res)


def width(ctx, sel, weight):
    """alpha of any kind, times equal or not"""
    t = [ctx.const(v) for v in (0, 1, 3)]
    s = ctx.SACF(t, data(ctx, 3, ('fixed', 'nan', 'constant')[ctx.choose(3, 'data')]))
    a = value(ctx, 'alpha')
    lags, C = s.autocorrelation(min_lag=-1, max_lag=1, lag_resolution=0.5, alpha=a, selection_function=sel, weight_function=weight)
    ctx.check(len(C) == len(lags) == 5, 'one value per lag')


def repeated(ctx, n, sel, weight, steps):
    """times that may be equal, everything by default"""
    t = [ctx.real('t0')]
    for i in range(1, n):
        v = ctx.real('t%d' % i)
        ctx.assume(v >= t[-1])
        t.append(v)
    T = rel(t)
    gaps = [b - a for a, b in zip(T, T[1:])]
    same = [ctx.sure(g == 0) for g in gaps]
    if not any(same):
        for g in gaps:
            ctx.assume(2 * T[-1] <= steps * g)
    s = ctx.SACF(list(t), data(ctx, n))
    kw = dict(selection_function=sel, weight_function=weight)
    try:
        lags, C = s.autocorrelation(**kw)
        ctx.check(not any(same), 'a grid that cannot be walked gives a result')
        ctx.check(len(C) == len(lags), 'one value per lag')
    except ValueError:
        ctx.check(any(same), 'a grid that can be walked is refused')
        lags, C = s.autocorrelation(lag_resolution=1, min_lag=0, max_lag=1, **kw)
        ctx.check(len(C) == len(lags) == 2, 'with a resolution given')


def single(ctx, sel, weight):
    """one sample, nothing given"""
    s = ctx.SACF([ctx.real('t')], [ctx.real('x')])
    lags, C = s.autocorrelation(selection_function=sel, weight_function=weight)
    ctx.eq(list(lags), [0], 'lags')
    ctx.check(len(C) == 1, 'values')


def left_out(ctx, sel, weight, steps):
    """only some of the parameters given"""
    t = [ctx.const(v) for v in (0, 1, 2.5)]
    s = ctx.SACF(t, data(ctx, 3))
    which = ctx.choose(3, 'given')
    name = ('min_lag', 'max_lag', 'lag_resolution')[which]
    v = value(ctx, 'v')
    full = [ctx.const(-2.5), ctx.const(2.5), ctx.const(1)]
    full[which] = v
    lo, hi, res = full
    if finite(ctx, v) and ctx.sure(res > 0):
        ctx.assume(hi - lo < steps * res)
    ends(ctx, lambda: s.autocorrelation(selection_function=sel, weight_function=weight, **{name: v}), lo, hi, res)


def correlator(ctx, steps):
    """parameters set on the correlator, computed again after a refusal"""
    t = [ctx.const(v) for v in (0, 1, 2.5)]
    cor = ctx.Correlator(ctx.DataStructure(t, data(ctx, 3)))
    lo, hi, res = value(ctx, 'lo'), value(ctx, 'hi'), value(ctx, 'res')
    if all(finite(ctx, v) for v in (lo, hi, res)):
        if ctx.sure(res > 0):
            ctx.assume(hi - lo < steps * res)
    cor.min_lag, cor.max_lag, cor.lag_resolution = lo, hi, res

    def run():
        cor.calculateStandardCorrelation()
        return cor.lag_timeseries(), cor.correlations()
    ends(ctx, run, lo, hi, res)
    cor.clearCorrelation()
    cor.min_lag, cor.max_lag, cor.lag_resolution = 0, 1, 1
    lags, C = run()
    ctx.eq(list(lags), [0, 1], 'lags afterwards')
    ctx.check(len(C[0]) == 2, 'values afterwards')


# limits in units of the spacing of doubles at their magnitude, resolutions in halves of it
NEAR = [(2, 6, 2), (2, 6, 1), (0, 4, 1), (0, 4, 2), (1, 3, 1), (-2, 3, 1), (-2, 4, 2), (-1, 5, 3), (2, 2, 1), (0, 0, 1), (3, 9, 3), (-3, 8, 0.5)]


def negligible(ctx, sel, weight, scale):
    """resolutions that rounding swallows at some lags or all; everything rounded as doubles are"""
    ctx.rounding()
    t = [ctx.const(v) for v in (0, 1, 2.5)]
    s = ctx.SACF(t, [ctx.const(1), ctx.box('x', 4, 0.5), ctx.const(2)])
    a, b, r = NEAR[ctx.choose(len(NEAR), 'near')]
    u = 2.0 ** -52 * scale
    side = (1, -1)[ctx.choose(2, 'side')]
    lo, hi = sorted((side * (scale + a * u), side * (scale + b * u)))
    try:
        lags, C = s.autocorrelation(min_lag=lo, max_lag=hi, lag_resolution=r * u / 2, selection_function=sel, weight_function=weight)
    except ValueError:
        ctx.check(r < 2, 'a grid that can be walked is refused')
        return
    ctx.check(len(C) == len(lags), 'one value per lag')
    for x, y in zip(lags, lags[1:]):
        ctx.check(x < y, 'lags rise')


def scenarios(tier):
    big = tier != 'quick'
    st = 6 if big else 3
    out = []
    for sel, w in OPTIONS:
        b = '%s-%s' % (sel, w)
        out += [(b, parameters, dict(sel=sel, weight=w, steps=st)), (b + '-width', width, dict(sel=sel, weight=w)), (b + '-single', single, dict(sel=sel, weight=w)),
                (b + '-left-out', left_out, dict(sel=sel, weight=w, steps=2 * st)), (b + '-rounded', negligible, dict(sel=sel, weight=w, scale=2.0 ** 53 if w == 'gaussian' else 1.0)),
                (b + '-repeated-2', repeated, dict(n=2, sel=sel, weight=w, steps=2 * st))]
        if big or (sel, w) in (('natural', 'fractional'), ('fast', 'gaussian')):
            out.append((b + '-repeated', repeated, dict(n=4 if big else 3, sel=sel, weight=w, steps=2 * st)))
    out += [('correlator', correlator, dict(steps=st)), ('one-sample', parameters, dict(sel='natural', weight='fractional', steps=st, times_=(4,))),
            ('nan-data', parameters, dict(sel='natural', weight='gaussian', steps=st, what='nan')), ('constant-data', parameters, dict(sel='natural', weight='fractional', steps=st, what='constant'))]
    return out
