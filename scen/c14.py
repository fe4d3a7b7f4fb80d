"""C14: calls do not affect each other."""
from .lib import *

BOUNDS = {'quick': 'up to 2 earlier calls out of 9 (with real-valued parameters, other options, failing ones, with the returned correlator changed and reused) before the checked one out of 4; n = 3, 1 and 2 series; two objects with different data (a real value each, lag and alpha real) used in turn; objects of 1 to 4 samples and 1 to 3 series one after the other',
          'thorough': 'up to 3 earlier calls'}
ASSUMES = ['lag_resolution > 0', 'alpha > 0']


def calls(ctx):
    a = ctx.real('a')
    ctx.assume(a > 0)
    ctx.assume(a < 4)
    return [lambda s: s.autocorrelation(),
            lambda s: s.autocorrelation(min_lag=0, max_lag=a, lag_resolution=2, alpha=a),
            lambda s: s.autocorrelation(min_lag=-1, max_lag=1, weight_function='gaussian'),
            lambda s: s.autocorrelation(max_lag=0, selection_function='fast'),
            lambda s: s.autocorrelation(min_lag=a, max_lag=0),
            lambda s: fails(ctx, lambda: s.autocorrelation(weight_function='nosuch', alpha=a, min_lag=0)),
            lambda s: fails(ctx, lambda: s.autocorrelation(selection_function='nosuch', max_lag=a)),
            lambda s: disturb(ctx, s, a),
            lambda s: fails(ctx, lambda: s.autocorrelation(min_lag='x')),
            lambda s: s.autocorrelation(alpha=a, weight_function='fractional_squared', return_correlator=True)]


def fails(ctx, f):
    try:
        f()
    except Exception:
        return None
    ctx.fail('call with a wrong argument succeeded')


def disturb(ctx, s, a):
    """use the returned correlator and the returned lists"""
    lags, C, cor = s.autocorrelation(min_lag=0, max_lag=1, return_correlator=True)
    cor.max_lag = a
    cor.min_lag = -a
    cor.alpha = a
    cor.lag_resolution = a
    cor.calculateStandardCorrelation()
    cor.clearCorrelation()
    del lags[0]
    while C:
        C.pop()
    v = s.data.data()
    v[0][0] = a
    w = s.data.normalised_timeseries()
    w.pop()


def sequence(ctx, length, m, lists):
    tin = [ctx.const(v) for v in (2, 3, 5)]
    rows = [[ctx.const(v) for v in r] for r in ([1, 4, 2], [0, 3, 5])][:m]
    xin = rows if m > 1 else rows[0]
    s = ctx.SACF(tin, xin)
    cs = calls(ctx)
    for i in range(length):
        r = cs[ctx.choose(len(cs), 'call%d' % i)](s)
        for v in r or ():
            if isinstance(v, list):
                del v[1:]           # the lists returned belong to the caller
                v.append(99)
    last = ctx.choose(4, 'last')
    got = cs[last](s)
    fresh = ctx.SACF([ctx.const(v) for v in (2, 3, 5)], [[ctx.const(v) for v in r] for r in ([1, 4, 2], [0, 3, 5])][:m] if m > 1 else [ctx.const(v) for v in (1, 4, 2)])
    want = cs[last](fresh)
    ctx.eq(got[0], want[0], 'lags')
    ctx.eq(got[1], want[1], 'correlations')
    ctx.eq(tin, [2, 3, 5], 'times of the caller')
    ctx.eq(xin, [[1, 4, 2], [0, 3, 5]] if m > 1 else [1, 4, 2], 'data of the caller')
    ctx.eq(s.data.timeseries(), [2, 3, 5], 'stored times')
    ctx.eq(s.data.data(), [[1, 4, 2], [0, 3, 5]][:m], 'stored data')
    ctx.eq(s.data.normalised_timeseries(), [0, 1, 3], 'relative times')
    ctx.eq(s.data.normalised_data(), fresh.data.normalised_data(), 'centred data')
    ctx.eq(s.data.median_time, 1, 'median')
    ctx.observe('C', got[1])


def symbolic(ctx, n, first):
    """symbolic data and lag, one earlier call"""
    t = times(ctx, n)
    x = reals(ctx, n, 'x')
    not_constant(ctx, x)
    k = ctx.real('k')
    l = ctx.real('l')
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    s = ctx.SACF(list(t), list(x))
    opt = [{}, dict(weight_function='gaussian'), dict(selection_function='fast')][first]
    s.autocorrelation(min_lag=l, max_lag=l, lag_resolution=2, alpha=a, **opt)
    got = s.autocorrelation(min_lag=k, max_lag=k)
    want = ctx.SACF(list(t), list(x)).autocorrelation(min_lag=k, max_lag=k)
    ctx.eq(got[0], want[0], 'lags')
    ctx.eq(got[1], want[1], 'correlations')
    ctx.eq(s.data.data(), [x], 'stored data')
    ctx.eq(s.data.timeseries(), t, 'stored times')


def others(ctx, n, sel, weight, kept):
    """two objects with different data, used in turn; each result against the definition"""
    k = ctx.real('k')
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    ctx.assume(k > -1.4)
    ctx.assume(k < 2.2)
    T = [[ctx.const(v) for v in (0, 1, 2.5, 3.75)[:n]], [ctx.const(v) for v in (0, 2, 3, 7)[:n]]]
    X = [[ctx.real('x')] + [ctx.const(v) for v in (3, -1, 2)[:n - 1]], [ctx.const(1), ctx.real('y')] + [ctx.const(v) for v in (5, -2)[:n - 2]]]
    for x in X:
        not_constant(ctx, x)
    objects = [None, None]
    refs = {}
    for step, i in enumerate((0, 1, 0, 1)):
        if objects[i] is None or not kept:
            objects[i] = ctx.SACF(list(T[i]), list(X[i]))
        kw = {} if step == 1 else dict(alpha=a)
        lags, c = objects[i].autocorrelation(min_lag=k, max_lag=k, lag_resolution=10, selection_function=sel, weight_function=weight, **kw)
        ctx.eq(lags[-1], k, 'lag')
        if (i, step == 1) not in refs:
            f = fast_estimates if sel == 'fast' else natural_estimates
            refs[i, step == 1] = f(ctx, T[i], centred(ctx, X[i]), k, a if kw else median(ctx, T[i]), weight)
        one_of(ctx, c[-1], refs[i, step == 1], 'c(k)')


def sizes(ctx, count):
    """objects of different sizes one after the other; each against the definition"""
    k = ctx.const(0.5)
    for step in range(count):
        n = 1 + ctx.choose(4, 'samples%d' % step)
        m = 1 + ctx.choose(3, 'series%d' % step)
        t = [ctx.const(v) for v in (0, 1, 2.5, 3.75)[:n]]
        xs = [[ctx.const((3 * i * i + j + step) % 7) for i in range(n)] for j in range(m)]
        if step == count - 1:
            xs[-1][0] = ctx.real('x')
        if n > 1:
            not_constant(ctx, xs[-1])
        s = ctx.SACF(list(t), [list(x) for x in xs] if m > 1 else list(xs[0]))
        ctx.exact(s.data.data(), xs, 'data')
        for x, mu, c in zip(xs, s.data.mean_data, s.data.normalised_data()):
            ctx.eq(mu, mean(ctx, x), 'mean')
            ctx.eq(c, centred(ctx, x), 'centred data')
        lags, c = s.autocorrelation(min_lag=k, max_lag=k, lag_resolution=10)
        ctx.eq(lags, [0, k], 'lags')
        cor = ctx.Correlator(s.data)
        ctx.eq(cor.max_lag, t[-1], 'max_lag')
        ctx.eq(cor.alpha, median(ctx, t), 'alpha')
        if n > 1:
            for x, v in zip(xs, c if m > 1 else [c]):
                if ctx.sure(sumsq(ctx, centred(ctx, x)) > 0):
                    ctx.eq(v[0], 1, 'c(0)')
                    one_of(ctx, v[1], natural_estimates(ctx, t, centred(ctx, x), k, median(ctx, t), 'fractional'), 'c(k)')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 4 if big else 3):
        out.append(('seq%d' % n, sequence, dict(length=n, m=1, lists=True)))
    out.append(('seq1-two-series', sequence, dict(length=1, m=2, lists=True)))
    if big:
        out.append(('seq2-two-series', sequence, dict(length=2, m=2, lists=True)))
    for f in range(3):
        out.append(('symbolic%d' % f, symbolic, dict(n=2, first=f)))
    for sel, w in (('natural', 'fractional'), ('fast', 'gaussian'), ('natural', 'fractional_squared')):
        for kept in (True, False):
            out.append(('others-%s-%s-%s' % (sel, w, 'kept' if kept else 'new'), others, dict(n=4 if big else 3, sel=sel, weight=w, kept=kept)))
    out += [('sizes%d' % c, sizes, dict(count=c)) for c in ((2, 3) if big else (2,))]
    return out
