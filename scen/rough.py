"""Scenarios in rounded arithmetic: every operation of the encoded code may be off by half a unit in
the last place.  Inputs lie in boxes around a fixed shape, at several offsets and magnitudes."""
from .lib import *

LAGS = [0, 1.25, 2.5]
BOX = 'doubles rounded: 6 or 7 samples in boxes of 0.1 % around a fixed irregular shape, data at magnitudes 1e-6, 1 and 1e6 with offsets up to 1e8 times the spread, times with origins up to 2.5e6'
SCALES = (1e-6, 1, 1e6)


def run(ctx, t, x, unit=1, sel='natural', weight='fractional', alpha=None):
    kw = dict(selection_function=sel, weight_function=weight)
    if alpha is not None:
        kw['alpha'] = alpha
    l, c = ctx.SACF(list(t), list(x)).autocorrelation(min_lag=0, max_lag=LAGS[-1] * unit, lag_resolution=LAGS[1] * unit, **kw)
    ctx.near(l, [v * unit for v in LAGS], 1e-9 * unit, 'lags')
    return c


def shifted(ctx, amp, off, n=6, sel='natural', weight='fractional'):
    """a constant added to the data"""
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, amp)
    c = ctx.box('c', off, off / 16)
    a = run(ctx, t, x, 1, sel, weight)
    b = run(ctx, t, [v + c for v in x], 1, sel, weight)
    ctx.near(b, a, 1e-2, 'correlations after the shift')
    if sel == 'natural':
        ctx.near(b[0], 1, 1e-2, 'lag zero')


def scaled(ctx, amp, n=6, sel='natural', weight='fractional'):
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, 1)
    c = ctx.box('c', amp, amp * 0.01)
    ctx.near(run(ctx, t, [v * c for v in x], 1, sel, weight), run(ctx, t, x, 1, sel, weight), 2e-2, 'correlations after scaling')


def moved(ctx, origin, unit, n=6, sel='natural', weight='fractional'):
    """another time origin"""
    ctx.rounding()
    t = rough_times(ctx, n, unit)
    x = rough_data(ctx, n, 1)
    c = ctx.box('c', origin, abs(origin) / 16)
    ctx.near(run(ctx, [v + c for v in t], x, unit, sel, weight), run(ctx, t, x, unit, sel, weight), 1e-2, 'correlations after moving the origin')


def units(ctx, unit, n=6, sel='natural', weight='fractional'):
    """another unit of time"""
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, 1)
    ctx.near(run(ctx, [v * unit for v in t], x, unit, sel, weight), run(ctx, t, x, 1, sel, weight), 1e-2, 'correlations in the other unit')


def zero(ctx, amp, off, n=6, sel='natural', weight='fractional'):
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, amp)
    c = ctx.box('c', off, off / 16)
    ctx.near(run(ctx, t, [v + c for v in x], 1, sel, weight)[0], 1, 5e-3, 'lag zero')


def defined(ctx, amp, off, n=6, sel='natural', weight='fractional', nan=()):
    """against the defining sum of the data without the offset"""
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, amp)
    c = ctx.box('c', off, off / 16)
    x = [ctx.NAN if i in nan else v for i, v in enumerate(x)]
    T = rel(t)
    xc = centred(ctx, x)
    got = run(ctx, t, [v + c for v in x], 1, sel, weight)
    ref = natural_estimates if sel == 'natural' else fast_estimates
    for k, v in zip(LAGS, got):
        ctx.near(v, ref(ctx, T, xc, k, median(ctx, T), weight)[0], 1e-2, 'c(%g)' % k)


def statistics(ctx, amp, off, n=6, nan=()):
    ctx.rounding()
    t = rough_times(ctx, n)
    x = rough_data(ctx, n, amp)
    y = rough_data(ctx, n, amp, 'y')
    o = ctx.box('o', 2.4e6, 1000)
    c = ctx.box('c', off, off / 16)
    x = [ctx.NAN if i in nan else v for i, v in enumerate(x)]
    ds = ctx.DataStructure([v + o for v in t], [[v + c for v in x], [v * 1 for v in y]])
    m = mean(ctx, x)
    tol = 1e-7 * amp + off * 1e-14
    ctx.near(ds.mean_data[0], c + m, tol, 'mean')
    ctx.near(ds.mean_data[1], mean(ctx, y), 1e-9 * amp, 'mean of the second series')
    ctx.near(ds.normalised_data(), [[v - m for v in x], centred(ctx, y)], tol, 'data relative to the mean')
    ctx.near(ds.normalised_timeseries(), rel(t), 1e-8, 'relative times')
    ctx.near(ds.median_time, median(ctx, rel(t)), 1e-8, 'median of the relative times')
    ctx.near(ds.max_time, t[-1] + o, 1e-8, 'last time')


def defaults(ctx, origin, unit, n=6):
    ctx.rounding()
    t = rough_times(ctx, n, unit)
    T = rel(t)
    c = ctx.box('c', origin, abs(origin) / 16)
    cor = ctx.Correlator(ctx.DataStructure([v + c for v in t], [ctx.const(v) for v in SHAPE[:n]]))
    tol = 1e-8 * unit
    ctx.near(cor.max_lag, T[-1], tol, 'max_lag')
    ctx.near(cor.min_lag, -T[-1], tol, 'min_lag')
    ctx.near(cor.alpha, median(ctx, T), tol, 'alpha')
    ctx.near(cor.lag_resolution, T[5] - T[4], tol, 'lag_resolution')


def weight(ctx, kind, scale, near):
    """one weight, at distances far below and around alpha"""
    ctx.rounding()
    cor = ctx.Correlator(ctx.DataStructure([ctx.const(0), ctx.const(1)], [ctx.const(0), ctx.const(1)]))
    a = ctx.box('alpha', scale, scale * 0.001)
    cor.alpha = a
    d = ctx.box('d', near * scale, near * scale * 0.001)
    name = {'fractional': 'fractionWeightFunction', 'fractional_squared': 'fractionSquaredWeightFunction', 'gaussian': 'gaussianWeightFunction'}[kind]
    w = getattr(cor, name)(d)
    want = WEIGHTS[kind](ctx, d, a)
    ctx.near(w, want, 2e-5, 'weight')
    if near < 1e-3:             # 1 - w is small but not lost
        less = ctx.div(d, a)
        if kind != 'fractional':
            less = less * less
            if kind == 'gaussian':
                less = less / 2
        ctx.near(w, 1 - less, 2e-2 * near ** (1 if kind == 'fractional' else 2) + 1e-15, 'weight of a small distance')


def offsets(fn, pairs, **kw):
    return [('rounded-%s-%g-%g' % (fn.__name__, a, a * r), fn, dict(kw, amp=a, off=a * r)) for a, r in pairs]
