"""Longer series and grids: fixed irregular times in a real unit, most data fixed, some values, the lag and alpha real."""
from .lib import *

BOX = 'longer series (up to 1100 samples, 300 series, 1100 lags, thorough up to 3000 lags; single cases with 70000 samples or 70000 lags) with a real unit of time and a few real values'


def pattern(n):
    """uneven gaps, all distinct pair distances avoided only by chance"""
    out = [0]
    v = 7
    for i in range(n - 1):
        v = (v * 29 + 11) % 64
        out.append(out[-1] + 0.25 + v / 32)
    return out


def level(i):
    return ((i * 37 + 5) % 23 - 11) / 4


def data(ctx, n, where, nan=(), name='x'):
    return [ctx.NAN if i in nan else ctx.real('%s%d' % (name, i)) if i in where else ctx.const(level(i)) for i in range(n)]


def setting(ctx, n, where, nan=(), m=1, unit=True, name='x'):
    P = pattern(n)
    if unit:
        h = ctx.real('h')
        ctx.assume(h > 0)
        ctx.assume(h < 1000)
        t = [h * ctx.const(v) for v in P]
    else:
        h = 1
        t = [ctx.const(v) for v in P]
    xs = [data(ctx, n, where if j == 0 else (), nan if j == m - 1 else (), '%s%d_' % (name, j)) for j in range(m)]
    for j in range(1, m):
        xs[j] = xs[j][j:] + xs[j][:j]
    return P, t, xs, h


def lag(ctx, n, at, sel='natural', weight='fractional', where=(), nan=(), m=1, alpha=False, width=0.01):
    """one lag within a small range around at*h"""
    P, t, xs, h = setting(ctx, n, where or (0, n // 2, n - 1), nan, m, unit=not alpha)
    for x in xs:
        not_constant(ctx, x)
    k = ctx.real('k')
    ctx.assume(k > (at - width) * h)
    ctx.assume(k < (at + width) * h)
    kw = {}
    A = median(ctx, rel(t))
    if alpha:
        A = ctx.real('alpha')
        ctx.assume(A > 0)
        kw['alpha'] = A
    s = ctx.SACF(list(t), list(xs[0]) if m == 1 else [list(x) for x in xs])
    lags, C = s.autocorrelation(min_lag=k, max_lag=k, lag_resolution=1, selection_function=sel, weight_function=weight, **kw)
    ctx.eq(lags[-1], k, 'lag')
    ref = natural_estimates if sel == 'natural' else fast_estimates
    C = C if m > 1 else [C]
    ctx.check(len(C) == m, 'series')
    T = rel(t)
    for x, c in zip(xs, C):
        one_of(ctx, c[-1], ref(ctx, T, centred(ctx, x), k, A, weight), 'c(k)')
    ctx.observe('c', C)


def select(ctx, n, at, fast=False, width=1):
    P, t, xs, h = setting(ctx, n, (), (), 1)
    k = ctx.real('k')
    ctx.assume(k > (at - width) * h)
    ctx.assume(k < (at + width) * h)
    cor = ctx.Correlator(ctx.DataStructure(list(t), xs[0]))
    it = ctx.CorrelationIterator(k, 1)
    (cor.fastSelectionFunctionIdx if fast else cor.naturalSelectionFunctionIdx)(it)
    idx = [int(i) for i in it.selection_indices]
    cor.deltaT(it)
    d = list(it.delta_t)
    T = rel(t)
    if fast:
        ctx.check(idx in (fast_pairs(ctx, T, k) or [[]]), 'pairs')
    else:
        want = natural_pairs(ctx, T, k)
        ctx.check(len(idx) == len(want), 'which samples are kept')
        for i, opts in enumerate(want):
            ctx.check(idx[i] in opts, 'partner is a nearest observation')
    ctx.check(len(d) == len(idx), 'one distance per pair')
    for i, j in enumerate(idx):
        s = T[i] + k
        ctx.eq(d[i], T[j] - s if ctx.sure(s < T[j]) else s - T[j], 'distance')


def grid(ctx, n, count, path='native', m=1, zero=True):
    """count lags of a grid in a real unit, on n samples"""
    P, t, xs, h = setting(ctx, n, (), (), m)
    opt = {'native': {}, 'python': dict(weight_function='gaussian'), 'gaussian': dict(weight_function='gaussian'), 'fast': dict(selection_function='fast'),
           'squared': dict(weight_function='fractional_squared')}[path]
    lo = -(count // 2) if zero else 3
    s = ctx.SACF(list(t), xs[0] if m == 1 else xs)
    lags, C = s.autocorrelation(min_lag=lo * h, max_lag=(lo + count - 1) * h, lag_resolution=h, **opt)
    C = C if m > 1 else [C]
    want = ([] if zero else [0]) + [(lo + i) * h for i in range(count)]
    ctx.check(len(lags) == len(want), 'number of lags')
    for l, v in zip(lags, want):
        ctx.eq(l, v, 'lag')
    ctx.check(len(C) == m, 'series')
    for c in C:
        ctx.check(len(c) == len(want), 'one value per lag')
    return s, t, xs, h, lags, C


def grid_values(ctx, n, count, path='native', m=1, picks=()):
    s, t, xs, h, lags, C = grid(ctx, n, count, path, m)
    T = rel(t)
    w = 'gaussian' if path == 'python' else 'fractional'
    ref = fast_estimates if path == 'fast' else natural_estimates
    for i in picks or range(0, count, max(1, count // 12)):
        for x, c in zip(xs, C):
            one_of(ctx, c[i], ref(ctx, T, centred(ctx, x), lags[i], median(ctx, T), w), 'c(k)')


def zero(ctx, n, sel='natural', weight='fractional'):
    P, t, xs, h = setting(ctx, n, (0, n // 2, n - 1))
    not_constant(ctx, xs[0])
    lags, c = ctx.SACF(list(t), xs[0]).autocorrelation(min_lag=0, max_lag=0, selection_function=sel, weight_function=weight)
    ctx.check(len(c) == 1, 'one lag')
    ctx.eq(c[0], 1, 'correlation at lag zero')


def changed(ctx, n, what, at):
    """two runs on related input"""
    P, t, xs, h = setting(ctx, n, (0, n // 2, n - 1), unit=False)
    x = xs[0]
    not_constant(ctx, x)
    c = ctx.real('c')
    k = ctx.real('k')
    ctx.assume(k > at - 0.01)
    ctx.assume(k < at + 0.01)
    kw = dict(min_lag=k, max_lag=k, lag_resolution=1)
    kw2 = kw
    t2, x2 = t, x
    if what == 'time-shift':
        t2 = [v + c for v in t]
    elif what == 'data-shift':
        x2 = [v + c for v in x]
    elif what == 'data-scale':
        ctx.assume(ctx.not_(ctx.eqc(c, 0)))
        x2 = [v * c for v in x]
    else:
        ctx.assume(c > 0)
        t2 = [v * c for v in t]
        kw2 = {p: c * v for p, v in kw.items()}
    a = ctx.SACF(list(t), list(x)).autocorrelation(**kw)
    b = ctx.SACF(list(t2), list(x2)).autocorrelation(**kw2)
    ctx.eq(a[1], b[1], 'correlations')


def together(ctx, n, m, count):
    """m series at once and one at a time"""
    P, t, xs, h = setting(ctx, n, (1,), m=m)
    not_constant(ctx, xs[0])
    kw = dict(min_lag=0, max_lag=(count - 1) * h, lag_resolution=h)
    L, C = ctx.SACF(list(t), [list(x) for x in xs]).autocorrelation(**kw)
    ctx.check(len(C) == m, 'series')
    for x, c in zip(xs, C):
        l, v = ctx.SACF(list(t), list(x)).autocorrelation(**kw)
        ctx.eq(L, l, 'lags')
        ctx.eq(c, v, 'series equals the series alone')


def twoways(ctx, n, count, m=1):
    """native and step-by-step"""
    s, t, xs, h, lags, C = grid(ctx, n, count, 'native', m)
    cor = ctx.Correlator(s.data)
    cor.min_lag = lags[0]
    cor.max_lag = lags[-1]
    cor.lag_resolution = h
    s.find_correlation(cor)
    ctx.eq(cor.lag_timeseries(), lags, 'lags')
    ctx.eq(cor.correlations(), C, 'correlations')


def reused(ctx, counts, path):
    """one correlator, grids of several lengths"""
    P, t, xs, h = setting(ctx, 5, (), m=2)
    s = ctx.SACF(list(t), xs)
    cor = ctx.Correlator(s.data)
    for n in counts:
        f = ctx.Correlator(s.data)
        for c in (cor, f):
            c.min_lag = 0
            c.max_lag = (n - 1) * h
            c.lag_resolution = h
            if path == 'native':
                c.calculateStandardCorrelation()
            else:
                s.find_correlation(c, 'fast', 'gaussian')
        ctx.check(len(f.lag_timeseries()) == n, 'number of lags')
        ctx.eq(cor.lag_timeseries(), f.lag_timeseries(), 'lags')
        ctx.eq(cor.correlations(), f.correlations(), 'correlations')
    cor.clearCorrelation()
    ctx.check(len(cor.lag_timeseries()) == 0, 'no lags after a clear')


def even(ctx, n):
    """evenly spaced"""
    h = ctx.real('h')
    ctx.assume(h > 0)
    o = ctx.real('o')
    x = data(ctx, n, (0, n // 3))
    not_constant(ctx, x)
    lags, c = ctx.SACF([o + i * h for i in range(n)], list(x)).autocorrelation()
    ctx.check(len(lags) == 2 * n - 1, 'number of lags')
    xc = centred(ctx, x)
    d = sumsq(ctx, xc)
    for p in range(0, n, max(1, n // 15)):
        ctx.eq(lags[n - 1 + p], p * h, 'lag')
        ctx.eq(c[n - 1 + p], ctx.div(total([xc[q] * xc[q + p] for q in range(n - p)]), d), 'classical autocorrelation')


def vast(ctx, n, k, weight='fractional', at=None):
    """more samples than 16 bits count: fixed times and lag, one real value"""
    import bisect
    from fractions import Fraction
    P = [float(v) for v in pattern(n)]
    x = data(ctx, n, (n - 5 if at is None else at,))
    not_constant(ctx, x)
    k = Fraction(k)
    f = float(k)
    s = ctx.SACF([ctx.const(v) for v in P], list(x))
    lags, c = s.autocorrelation(min_lag=ctx.const(k), max_lag=ctx.const(k), lag_resolution=1, weight_function=weight)
    alpha = (Fraction(P[(n - 1) // 2]) + Fraction(P[n // 2])) / 2
    xc = centred(ctx, x)
    want = []
    for i in range(n):
        if P[i] + f > P[-1]:
            break
        j = bisect.bisect_left(P, P[i] + f)
        if j and P[i] + f - P[j - 1] < P[j] - P[i] - f:
            j -= 1
        w = 1 / (1 + (abs(Fraction(P[j]) - Fraction(P[i]) - k) / alpha) ** (2 if weight == 'fractional_squared' else 1))
        want.append(xc[i] * xc[j] * ctx.const(w))
    ctx.eq(c[-1], ctx.div(total(want), sumsq(ctx, xc)), 'c(k)')


def vast_grid(ctx, count, path='native'):
    """more lags than 16 bits count"""
    h = ctx.const(1) / 64
    opt = dict(native={}, python=dict(weight_function='fractional_squared'), fast=dict(selection_function='fast'))[path]
    t = [ctx.const(v) for v in (0, 3, 4.5)]
    x = [ctx.real('x0'), 1, 2]
    not_constant(ctx, x)
    half = count // 2
    lags, c = ctx.SACF(t, list(x)).autocorrelation(min_lag=-half * h, max_lag=(count - half) * h, lag_resolution=h, **opt)
    ctx.check(len(lags) == count + 1, 'number of lags')
    ctx.check(len(c) == count + 1, 'number of values')
    for i, l in enumerate(lags):
        ctx.eq(l, (i - half) * h, 'lag')
    ctx.eq(c[half], 1, 'lag zero')
    for i in (half + 1, half + 280):
        one_of(ctx, c[i], (fast_estimates if path == 'fast' else natural_estimates)(ctx, t, centred(ctx, x), lags[i], t[1], 'fractional_squared' if path == 'python' else 'fractional'), 'c(k)')
