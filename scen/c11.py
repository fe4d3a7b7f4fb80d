"""C11: given parameters take effect, the others keep their defaults."""
from .lib import *

BOUNDS = {'quick': 'every subset of the four parameters, each given one real (alpha not 0) or a zero; n = 3 (times real for the read-back, fixed for grids); grids up to 4 steps; native, gaussian and fast computations',
          'thorough': 'grids up to 7 steps'}
ASSUMES = ['lag_resolution > 0', 'alpha > 0 or alpha = 0', 'number of grid points within the bound']
NAMES = ['min_lag', 'max_lag', 'lag_resolution', 'alpha']


def given(ctx, subset, zeros, steps, path, fixed, m=1):
    t = [ctx.const(v) for v in fixed] if fixed else times(ctx, 3)
    n = len(t)
    T = rel(t)
    x = [[ctx.const(i * i + j * 3 * (i % 2) + 1) for i in range(n)] for j in range(m)]
    kw = {}
    for p in subset:
        kw[p] = ctx.const(0) if p in zeros else ctx.real(p)
        if p in ('lag_resolution', 'alpha') and p not in zeros:
            ctx.assume(kw[p] > 0)
    base = ctx.Correlator(ctx.DataStructure(list(t), x if m > 1 else x[0]))
    want = {'min_lag': -T[-1], 'max_lag': T[-1], 'lag_resolution': base.lag_resolution, 'alpha': median(ctx, T)}
    for i in range(n - 1):
        ctx.le(want['lag_resolution'], T[i + 1] - T[i], 'default resolution')
    want.update(kw)
    ctx.assume(want['max_lag'] - want['min_lag'] <= steps * want['lag_resolution'])
    opt = {} if path == 'native' else dict(weight_function='gaussian') if path == 'gaussian' else dict(selection_function='fast')
    s = ctx.SACF(list(t), x if m > 1 else x[0])
    lags, C, cor = s.autocorrelation(return_correlator=True, **dict(kw, **opt))
    for p in NAMES:
        ctx.eq(getattr(cor, p), want[p], p)
    ctx.eq(cor.lag_timeseries(), lags, 'lags of the returned correlator')
    ctx.eq(cor.correlations(), C if m > 1 else [C], 'correlations of the returned correlator')
    for p in NAMES:
        setattr(base, p, want[p])
    if path == 'native':
        base.calculateStandardCorrelation()
    else:
        s.find_correlation(base, **opt)
    ctx.eq(base.lag_timeseries(), lags, 'lags')
    ctx.eq(base.correlations(), C if m > 1 else [C], 'correlations')
    again = s.autocorrelation(**dict(kw, **opt))
    ctx.check(len(again) == 2, 'a pair without return_correlator')
    ctx.eq(again[0], lags, 'lags of the pair')
    ctx.eq(again[1], C, 'correlations of the pair')
    if not lags:
        return
    # the first lag is the given one, whatever its sign
    ctx.check(ctx.any([ctx.eqc(lags[0], want['min_lag']), ctx.eqc(lags[0], 0)]), 'first lag')
    ctx.observe('lags', lags)


def effect(ctx, n, which):
    """alpha takes effect: the estimate is the one the formula gives for it"""
    t = times(ctx, n)
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    k = ctx.real('k')
    T = rel(t)
    lags, c = ctx.SACF(list(t), list(x)).autocorrelation(min_lag=k, max_lag=k, lag_resolution=1, alpha=a, **({} if which == 'fractional' else dict(weight_function=which)))
    ctx.eq(lags[-1], k, 'lag')
    one_of(ctx, c[-1], natural_estimates(ctx, T, centred(ctx, x), k, a, which), 'estimate for the given alpha')


def readback(ctx, path):
    """any real at all, an empty grid"""
    t = times(ctx, 3)
    kw = {}
    sub = [p for p in NAMES if ctx.choose(2, p)]
    for p in sub:
        kw[p] = ctx.real(p)
    T = rel(t)
    lo = kw.get('min_lag', -T[-1])
    hi = kw.get('max_lag', T[-1])
    ctx.assume(lo > hi)
    opt = {} if path == 'native' else dict(weight_function='gaussian')
    lags, C, cor = ctx.SACF(list(t), [ctx.const(1), ctx.const(2), ctx.const(4)]).autocorrelation(return_correlator=True, **dict(kw, **opt))
    ctx.check(len(lags) == 0 and len(C) == 0, 'no lags')
    for p in kw:
        ctx.eq(getattr(cor, p), kw[p], p)
    if 'alpha' not in kw:
        ctx.eq(cor.alpha, median(ctx, T), 'default alpha')
    if 'lag_resolution' not in kw:
        for i in range(2):
            ctx.le(cor.lag_resolution, T[i + 1] - T[i], 'default resolution')
    if 'min_lag' not in kw:
        ctx.eq(cor.min_lag, -T[-1], 'default min_lag')
    if 'max_lag' not in kw:
        ctx.eq(cor.max_lag, T[-1], 'default max_lag')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    st = 7 if big else 4
    for b in range(16):
        sub = [p for i, p in enumerate(NAMES) if b >> i & 1]
        name = '+'.join(sub) or 'none'
        out.append((name, given, dict(subset=sub, zeros=[], steps=8 if not ('lag_resolution' in sub or 'min_lag' in sub or 'max_lag' in sub) else st,
                                      path='native', fixed=[0, 1, 3] if 'lag_resolution' in sub and len(sub) > 1 else None)))
        for z in ('min_lag', 'max_lag', 'alpha'):
            if z in sub:
                out.append(('%s zero %s' % (name, z), given, dict(subset=sub, zeros=[z], steps=8, path='native', fixed=[1, 2, 4])))
    for path in ('gaussian', 'fast'):
        for sub in ([], ['min_lag'], ['max_lag'], ['lag_resolution'], ['alpha'], ['min_lag', 'max_lag'], NAMES):
            out.append(('%s-%s' % (path, '+'.join(sub) or 'none'), given, dict(subset=sub, zeros=[], steps=8 if not sub or sub == ['alpha'] else 3, path=path, fixed=[0, 1, 3])))
        out.append(('%s-zero' % path, given, dict(subset=NAMES, zeros=['min_lag', 'alpha'], steps=2, path=path, fixed=[0, 1, 3])))
    out.append(('zero-both', given, dict(subset=['min_lag', 'max_lag'], zeros=['min_lag', 'max_lag'], steps=2, path='native', fixed=None)))
    out.append(('two-series', given, dict(subset=NAMES, zeros=[], steps=2, path='native', fixed=[0, 1, 3], m=2)))
    for w in WEIGHTS:
        out.append(('alpha-effect-' + w, effect, dict(n=2, which=w)))
    out += [('readback', readback, dict(path='native')), ('readback-python', readback, dict(path='python'))]
    return out
