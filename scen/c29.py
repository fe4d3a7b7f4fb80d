"""C29: the kind of sequence and of number does not matter."""
from .lib import *

BOUNDS = {'quick': 'times, values, errors each as list, tuple or array of real values (NaN among them), or as whole numbers; n = 3, one series flat or nested and two series; '
                   'data set, defaults and estimates (natively and by steps) compared with those from lists of floats; lag parameters real, as float, numpy scalar or whole number',
          'thorough': 'also n = 4'}
ASSUMES = ['data not constant', 'lag_resolution > 0']
OPT = dict(native={}, steps=dict(weight_function='fractional_squared'), fast=dict(selection_function='fast'))


def given(ctx, v, kind):
    if kind == 0:
        return [list(x) for x in v] if isinstance(v[0], list) else list(v)
    if kind == 1:
        return tuple(tuple(x) for x in v) if isinstance(v[0], list) else tuple(v)
    if kind == 2:
        return ctx.array(v)
    return [tuple(x) for x in v] if isinstance(v[0], list) else list(v)


def compare(ctx, a, b, kw):
    for f in ('timeseries', 'data', 'errors', 'normalised_timeseries', 'normalised_data'):
        ctx.exact(getattr(a.data, f)(), getattr(b.data, f)(), f)
    ctx.exact(a.data.mean_data, b.data.mean_data, 'means')
    ctx.exact(a.data.median_time, b.data.median_time, 'median')
    la, ca = a.autocorrelation(**kw)
    lb, cb = b.autocorrelation(**kw)
    ctx.exact(la, lb, 'lags')
    ctx.exact(ca, cb, 'correlations')


def kinds(ctx, n, form, errors, path, nan=False):
    t = times(ctx, n)
    m = 2 if form == 'two' else 1
    xs = [reals(ctx, n, 'x%d_' % j, nan=(1,) if nan else ()) for j in range(m)]
    for x in xs:
        not_constant(ctx, x)
    es = [reals(ctx, n, 'e%d_' % j) for j in range(m)]
    x, e = (xs[0], es[0]) if form == 'flat' else (xs, es)
    k = ctx.real('k')
    kw = dict(min_lag=k, max_lag=k, lag_resolution=1, **OPT[path])
    top = 3 if form == 'flat' else 4
    args = [given(ctx, t, ctx.choose(3, 'times')), given(ctx, x, ctx.choose(top, 'values'))]
    if errors:
        args.append(given(ctx, e, ctx.choose(top, 'errors')))
    plain = [given(ctx, v, 0) for v in ([t, x, e] if errors else [t, x])]
    compare(ctx, ctx.SACF(*args), ctx.SACF(*plain), kw)


def whole(ctx, path):
    """whole numbers and floats of the same value"""
    t = [0, 2, 5, 9]
    x = [1, -2, 4, 0]
    e = [1, 1, 2, 3]
    kw = dict(min_lag=ctx.choose(5, 'min') - 2, max_lag=ctx.choose(4, 'max'), lag_resolution=1 + ctx.choose(2, 'resolution'), alpha=1 + ctx.choose(2, 'alpha'), **OPT[path])
    fl = {k: v if isinstance(v, (str, bool)) else ctx.const(v) for k, v in kw.items()}
    a = ctx.SACF(list(t), list(x), list(e))
    b = ctx.SACF([ctx.const(v) for v in t], [ctx.const(v) for v in x], [ctx.const(v) for v in e])
    compare(ctx, a, b, kw)
    la, ca = a.autocorrelation(**kw)
    lb, cb = a.autocorrelation(**fl)
    ctx.exact(la, lb, 'lags from whole parameters')
    ctx.exact(ca, cb, 'correlations from whole parameters')


def parameters(ctx, path):
    """numbers of other types as parameters"""
    t = [ctx.const(v) for v in (0, 2, 5, 9)]
    s = ctx.SACF(t, [ctx.const(v) for v in (1, -2, 4, 0)])
    a = ctx.real('alpha')
    ctx.assume(a > 0)
    k = ctx.real('k')
    w = ctx.real('width')
    ctx.assume(w > 0)
    ctx.assume(w < 2.5)
    kw = dict(min_lag=k, max_lag=k + w, lag_resolution=1.25, alpha=a)
    other = {p: ctx.scalar(v) if ctx.choose(2, p) else v for p, v in kw.items()}
    la, ca = s.autocorrelation(**dict(kw, **OPT[path]))
    lb, cb = s.autocorrelation(**dict(other, **OPT[path]))
    ctx.exact(la, lb, 'lags')
    ctx.exact(ca, cb, 'correlations')


def scenarios(tier):
    out = []
    for path in OPT:
        out.append(('whole-' + path, whole, dict(path=path)))
        out.append(('parameters-' + path, parameters, dict(path=path)))
        for form in ('flat', 'one', 'two'):
            for errors in (False, True):
                out.append(('%s%s-%s' % (form, '-errors' if errors else '', path), kinds, dict(n=2, form=form, errors=errors, path=path)))
    for form in ('flat', 'two'):
        out.append((form + '-nan', kinds, dict(n=3, form=form, errors=True, path='native', nan=True)))
        out.append((form + '-n3', kinds, dict(n=3, form=form, errors=False, path='native')))
    if tier != 'quick':
        out.append(('flat-n4', kinds, dict(n=4, form='flat', errors=False, path='native')))
    return out
