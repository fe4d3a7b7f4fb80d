"""Inputs and reference computations shared by the scenarios.  Runs symbolically and concretely."""


def times(ctx, n, name='t', first=None):
    t = []
    for i in range(n):
        v = ctx.real('%s%d' % (name, i)) if i or first is None else ctx.const(first)
        if t:
            ctx.assume(v > t[-1])
        t.append(v)
    return t


def reals(ctx, n, name, nan=()):
    return [ctx.NAN if i in nan else ctx.real('%s%d' % (name, i)) for i in range(n)]


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def mean(ctx, xs):
    xs = [x for x in xs if not ctx.isnan(x)]
    return ctx.div(total(xs), len(xs))


def centred(ctx, xs):
    m = mean(ctx, xs)
    return [x - m for x in xs]


def sumsq(ctx, xs):
    return total([x * x for x in xs if not ctx.isnan(x)])


SHAPE = [1, -2, 0.5, 3, -1.25, 0.75, 2, -0.5, -3, 1.5, 0.25, -1]
STEPS = [0, 1.1, 2.3, 2.9, 4.7, 5.2, 6.9, 7.4, 9.8, 10.3, 12.1, 13.7]


def rough_data(ctx, n, amp, name='x', wide=0.001):
    """rounded numbers near a fixed shape"""
    return [ctx.box('%s%d' % (name, i), SHAPE[i] * amp, wide * amp) for i in range(n)]


def rough_times(ctx, n, unit=1, wide=0.001):
    return [ctx.box('t%d' % i, STEPS[i] * unit, wide * unit) for i in range(n)]


def not_constant(ctx, xs):
    """assume the (non-NaN) values are not all equal"""
    ctx.assume(sumsq(ctx, centred(ctx, xs)) > 0)


def rel(t):
    return [x - t[0] for x in t]


def kept(ctx, T, k, strict=False):
    """samples whose shifted time does not exceed (strict: lies before) the last one"""
    n = 0
    for x in T:
        s = x + k
        if ctx.sure(s >= T[-1]) if strict else ctx.sure(s > T[-1]):
            break
        n += 1
    return n


def nearest(ctx, T, s):
    """indices of the samples nearest to s (two if equally near)"""
    j = 0
    while j < len(T) and ctx.sure(T[j] < s):
        j += 1
    if j == 0:
        return [0]
    if j == len(T):
        return [j - 1]
    lo = s - T[j - 1]
    hi = T[j] - s
    if ctx.sure(lo < hi):
        return [j - 1]
    if ctx.sure(hi < lo):
        return [j]
    return [j - 1, j]


def w_frac(ctx, d, a):
    return ctx.div(1, 1 + ctx.div(d, a))


def w_frac2(ctx, d, a):
    q = ctx.div(d, a)
    return ctx.div(1, 1 + q * q)


def w_gauss(ctx, d, a):
    return ctx.exp(ctx.div(-(d * d), 2 * a * a))


WEIGHTS = {'fractional': w_frac, 'fractional_squared': w_frac2, 'gaussian': w_gauss}


def natural_pairs(ctx, T, k):
    """per kept sample the admissible partners"""
    return [nearest(ctx, T, T[i] + k) for i in range(kept(ctx, T, k))]


def fast_pairs(ctx, T, k):
    m = kept(ctx, T, k, strict=True)
    if m == 0:
        return []
    opts = []
    for f in nearest(ctx, T, T[0] + k):
        opts.append([f + i for i in range(min(m, len(T) - f))])
    return opts


def estimate(ctx, T, x, k, alpha, pairs, weight='fractional'):
    """the estimate from one list of partners; x centred, NaN values skipped"""
    W = WEIGHTS[weight]
    s = 0
    for i, j in enumerate(pairs):
        d = T[i] + k - T[j]
        if ctx.sure(d < 0):
            d = -d
        p = x[i] * x[j]
        if ctx.isnan(p):
            continue
        s = s + W(ctx, d, alpha) * p
    return ctx.div(s, sumsq(ctx, x))


def natural_estimates(ctx, T, x, k, alpha, weight='fractional'):
    """every admissible value (more than one only where samples are equally near)"""
    combos = [[]]
    for opt in natural_pairs(ctx, T, k):
        combos = [c + [j] for c in combos for j in opt]
        if len(combos) > 64:
            ctx.assume(False)
    return [estimate(ctx, T, x, k, alpha, c, weight) for c in combos]


def fast_estimates(ctx, T, x, k, alpha, weight='fractional'):
    ps = fast_pairs(ctx, T, k) or [[]]
    return [estimate(ctx, T, x, k, alpha, c, weight) for c in ps]


def one_of(ctx, v, options, label):
    if len(options) == 1:
        ctx.eq(v, options[0], label)
    else:
        ctx.check(ctx.any([ctx.eqc(v, o) for o in options]), label)


def median(ctx, T):
    n = len(T)
    return T[n // 2] if n % 2 else (T[n // 2 - 1] + T[n // 2]) / 2


def flat(v):
    """lists of correlations of a result, one list or several"""
    return v if v and isinstance(v[0], list) else [v]


def lag_run(ctx, s, k, **kw):
    """the estimates at the single lag k of an estimator s: (lags, correlation at k per series)"""
    lags, c = s.autocorrelation(min_lag=k, max_lag=k, lag_resolution=kw.pop('res', 1), **kw)
    return lags, c


def irregular(n):
    """n strictly increasing numbers with uneven gaps (multiples of 1/4)"""
    out = [0]
    gaps = [1, 0.5, 1.5, 1.25, 0.25, 2.5, 1, 2, 0.75, 3, 0.5, 1.75, 0.25, 0.25, 4, 1]
    for i in range(n - 1):
        out.append(out[-1] + gaps[i % len(gaps)])
    return out
