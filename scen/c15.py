"""C15: which inputs are accepted."""
from .lib import *

BOUNDS = {'quick': 'all lengths 0..3 of times, of up to 3 series and of up to 3 error series, flat or nested, all values real; through DataStructure and SACF; 4 series and error series and more than 60 ones of lengths 2 to 4',
          'thorough': 'all lengths 0..4'}
ASSUMES = []


def build(ctx, make, expect, t, xs, es, flat):
    D = ctx.ds_module
    try:
        ds = make()
    except D.EmptyDataStructureException:
        ctx.check(expect == 'empty', 'empty-data error, expected %s' % expect)
        return
    except D.BadDataInputException:
        ctx.check(expect == 'bad', 'bad-input error, expected %s' % expect)
        return
    ctx.check(expect == 'ok', 'accepted, expected %s' % expect)
    ctx.exact(ds.timeseries(), t, 'times')
    ctx.exact(ds.data(), xs, 'data')
    ctx.exact(ds.errors(), es, 'errors')
    ctx.check(ds.N_datasets == len(xs), 'number of series')
    ctx.check(ds.M_datapoints == len(t), 'number of samples')


def lengths(ctx, size, series, errors, flat, via):
    t = reals(ctx, ctx.choose(size + 1, 'times'), 't')
    for i in range(1, len(t)):
        ctx.assume(t[i] > t[i - 1])
    xs = [reals(ctx, ctx.choose(size + 1, 'data%d' % j), 'x%d_' % j) for j in range(series)]
    es = None
    if errors is not None:
        es = [reals(ctx, ctx.choose(size + 1, 'errors%d' % j), 'e%d_' % j) for j in range(errors)]
    expect = 'ok'
    if not t or not any(len(x) for x in xs):
        expect = 'empty'
    elif any(len(x) != len(t) for x in xs):
        expect = 'bad'
    elif es is not None and any(len(e) for e in es) and (len(es) != len(xs) or any(len(e) != len(t) for e in es)):
        expect = 'bad'
    X = [list(x) for x in xs]
    X = X[0] if flat else X
    E = None
    if es is not None:
        E = [list(e) for e in es]
        E = E[0] if flat else E
    T = list(t)
    if via == 'SACF':
        make = (lambda: ctx.SACF(T, X, E).data)
    elif E is None:
        make = (lambda: ctx.DataStructure(T, X))
    else:
        make = (lambda: ctx.DataStructure(T, X, E))
    build(ctx, make, expect, t, xs, es if es is not None and any(len(e) for e in es) else [], flat)


def near_lengths(ctx, series, errors, which, extra=0):
    """more series, each of the right length, one short or one long; extra further ones of the right length in the middle"""
    n = 3
    t = [ctx.const(v) for v in (0, 1, 2.5)]

    def rows(m, name, free):
        out = []
        for j in range(m):
            k = n - 1 + ctx.choose(3, '%s%d' % (name, j)) if free else n
            out.append(reals(ctx, k, '%s%d_' % (name, j)))
        h = len(out) // 2
        out[h:h] = [[ctx.const(v) for v in (1, 4, j)] for j in range(extra)]
        return out
    xs = rows(series, 'x', which == 'data')
    es = rows(errors, 'e', which == 'errors') if errors else None
    bad = any(len(x) != n for x in xs) or es is not None and any(len(e) != n for e in es)
    X = [list(x) for x in xs]
    E = None if es is None else [list(e) for e in es]
    build(ctx, (lambda: ctx.DataStructure(t, X)) if E is None else (lambda: ctx.DataStructure(t, X, E)), 'bad' if bad else 'ok', t, xs, es or [], False)


def scenarios(tier):
    big = tier != 'quick'
    z = 4 if big else 3
    out = []
    for via in ('DataStructure', 'SACF'):
        out += [('flat-' + via, lengths, dict(size=z, series=1, errors=None, flat=True, via=via)),
                ('flat-errors-' + via, lengths, dict(size=z, series=1, errors=1, flat=True, via=via)),
                ('one-' + via, lengths, dict(size=z, series=1, errors=None, flat=False, via=via)),
                ('none-' + via, lengths, dict(size=z, series=0, errors=None, flat=False, via=via)),
                ('two-' + via, lengths, dict(size=z, series=2, errors=None, flat=False, via=via)),
                ('three-' + via, lengths, dict(size=z, series=3, errors=None, flat=False, via=via))]
    for m in (1, 2, 3):
        for e in (0, 1, 2, 3):
            if m + e < 5:
                out.append(('%d-series-%d-errors' % (m, e), lengths, dict(size=z if m + e < 4 else 2 + big, series=m, errors=e, flat=False, via='DataStructure')))
    for m in (4, 5):
        out += [('near-%d' % m, near_lengths, dict(series=m, errors=0, which='data')), ('near-%d-data' % m, near_lengths, dict(series=m, errors=m, which='data')),
                ('near-%d-errors' % m, near_lengths, dict(series=m, errors=m, which='errors'))]
    out += [('near-many', near_lengths, dict(series=3, errors=0, which='data', extra=100)), ('near-many-errors', near_lengths, dict(series=3, errors=3, which='errors', extra=60))]
    return out
