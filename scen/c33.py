"""C33: misuse of the step operations is an error or harmless, and leaves the correlator usable.
Every load and store of the encoded code is checked."""
from .lib import *

BOUNDS = {'quick': 'every sequence of 3 step operations on iterators of sizes -1, 0, 1, 1.5, 2, 3 and NaN (lag real or NaN), results stored at positions -2, 0, 2 and the largest, every kind of wrong object in place '
                   'of each argument, results cleared, cut and read in between, two correlators of 1 and 4 samples or 1 and 2 series taking turns on one iterator; fixed uneven times; '
                   'then one lag computed on the same correlator',
          'thorough': 'every sequence of 4'}
ASSUMES = []

ERRORS = (IndexError, ValueError, TypeError, OverflowError, RuntimeError)
SIZES = (0, 1, 2, 3, 1.5, -1, None)
STEPS = ('naturalSelectionFunctionIdx', 'fastSelectionFunctionIdx', 'deltaT', 'getFractionWeights', 'getFractionSquaredWeights', 'getGaussianWeights', 'findCorrelation')
FEWER = ('naturalSelectionFunctionIdx', 'fastSelectionFunctionIdx', 'deltaT', 'getFractionWeights', 'findCorrelation')


def tried(ctx, f):
    """f, which may raise an ordinary error"""
    try:
        f()
        return True
    except ERRORS:
        ctx.check(True, 'an ordinary error')
        return False


def correlator(ctx, n, m):
    t = [ctx.const(v) for v in irregular(n)]
    xs = [[ctx.const((3 * i * i + 2 * j + i) % 7) for i in range(n)] for j in range(m)]
    return ctx.Correlator(ctx.DataStructure(t, xs if m > 1 else xs[0]))


def one(ctx, cor, k, m):
    """one lag, by the steps and natively"""
    cor.clearCorrelation()
    it = ctx.CorrelationIterator(k, m)
    cor.naturalSelectionFunctionIdx(it)
    cor.deltaT(it)
    cor.getFractionWeights(it)
    cor.findCorrelation(it)
    cor.addCorrelationData(it, 0)
    cor.cleanCorrelationData(1)
    out = [list(cor.lag_timeseries()), [list(c) for c in cor.correlations()]]
    cor.clearCorrelation()
    cor.min_lag, cor.max_lag, cor.lag_resolution = -0.5, 0.5, 0.5
    cor.calculateStandardCorrelation()
    return out + [list(cor.lag_timeseries()), [list(c) for c in cor.correlations()]]


def consistent(ctx, cor, m):
    n = len(cor.lag_timeseries())
    C = cor.correlations()
    ctx.check(len(C) == m, 'series read')
    for c in C:
        ctx.check(len(c) == n, 'one value per lag')


def still_right(ctx, cor, n, m):
    ctx.eq(one(ctx, cor, 0.75, m), one(ctx, correlator(ctx, n, m), 0.75, m), 'the correlator afterwards')


def sized(ctx, sizes, name='size'):
    """an iterator of some size, or None if it is refused"""
    size = sizes[ctx.choose(len(sizes), name)]
    k = ctx.real('k' + name)
    try:
        return ctx.CorrelationIterator(k, ctx.NAN if size is None else size)
    except ERRORS:
        ctx.check(size is None or size < 0, 'refused')
        return None


def sequence(ctx, n, m, length, sizes, ops):
    """steps in any order"""
    cor = correlator(ctx, n, m)
    it = sized(ctx, sizes)
    if it is not None:
        for i in range(length):
            j = ctx.choose(len(ops) + 1, 'step%d' % i)
            if j < len(ops):
                tried(ctx, lambda: getattr(cor, ops[j])(it))
            else:
                tried(ctx, lambda: cor.addCorrelationData(it, 1))
                consistent(ctx, cor, m)
        for name in ('shifted_timeseries', 'selection_indices', 'delta_t', 'weights', 'correlation'):
            ctx.check(len(getattr(it, name)) >= 0, name)
    consistent(ctx, cor, m)
    still_right(ctx, cor, n, m)


def storing(ctx, n, m, sizes):
    """results stored anywhere, cleared, cut and read in between"""
    cor = correlator(ctx, n, m)
    it = sized(ctx, sizes)
    if it is not None:
        for i in range(3):
            j = ctx.choose(8, 'step%d' % i)
            p = (-2, 0, 2, 2 ** 31 - 1)
            if j < 4:
                ok = tried(ctx, lambda: cor.addCorrelationData(it, p[j]))
                if ok:
                    ctx.check(len(cor.lag_timeseries()) > p[j] >= 0, 'stored at its position')
            elif j < 7:
                tried(ctx, lambda: cor.cleanCorrelationData((0, 3, -1)[j - 4]))
            else:
                cor.clearCorrelation()
            consistent(ctx, cor, m)
    still_right(ctx, cor, n, m)


def turns(ctx, a, b, length, ops):
    """one iterator on two correlators of different data"""
    cors = [correlator(ctx, *a), correlator(ctx, *b)]
    it = sized(ctx, (1, 2) if max(a[1], b[1]) > 1 else (1,))
    for i in range(length):
        c = cors[ctx.choose(2, 'whose%d' % i)]
        j = ctx.choose(len(ops), 'step%d' % i)
        tried(ctx, lambda: getattr(c, ops[j])(it))
    for c, (n, m) in zip(cors, (a, b)):
        tried(ctx, lambda: c.addCorrelationData(it, 0))
        consistent(ctx, c, m)
        still_right(ctx, c, n, m)


def handed_over(ctx, a, b, weight):
    """the steps in order, the correlator exchanged at any point"""
    cors = [correlator(ctx, *a), correlator(ctx, *b)]
    it = sized(ctx, (1, 2) if max(a[1], b[1]) > 1 else (1,))
    first = ctx.choose(2, 'first')
    at = ctx.choose(4, 'exchanged after')
    sel = STEPS[ctx.choose(2, 'selection')]
    for i, op in enumerate((sel, 'deltaT', weight, 'findCorrelation', 'add')):
        c = cors[first if i <= at else 1 - first]
        if op == 'add':
            tried(ctx, lambda: c.addCorrelationData(it, 0))
        else:
            tried(ctx, lambda: getattr(c, op)(it))
    for c, (n, m) in zip(cors, (a, b)):
        consistent(ctx, c, m)
        still_right(ctx, c, n, m)


def wrong(ctx, m):
    """something else in place of an argument"""
    n = 3
    cor = correlator(ctx, n, m)
    it = ctx.CorrelationIterator(ctx.real('k'), m)
    ds = ctx.DataStructure([ctx.const(0), ctx.const(1)], [ctx.const(1), ctx.const(3)])
    bad = (None, 'x', ds, cor, 1.5, [])[ctx.choose(6, 'what')]

    def refused(f, label):
        try:
            f()
        except ERRORS:
            ctx.check(True, 'an ordinary error')
            return
        ctx.fail(label + ' takes the wrong kind of object')
    j = ctx.choose(len(STEPS) + 5, 'where')
    if j < len(STEPS):
        refused(lambda: getattr(cor, STEPS[j])(bad), STEPS[j])
    elif j == len(STEPS):
        refused(lambda: cor.addCorrelationData(bad, 0), 'addCorrelationData')
    elif j == len(STEPS) + 1:
        refused(lambda: cor.addCorrelationData(it, bad), 'addCorrelationData')
    elif j == len(STEPS) + 2:
        refused(lambda: cor.cleanCorrelationData(bad), 'cleanCorrelationData')
    elif j == len(STEPS) + 3:
        if bad is not ds:
            refused(lambda: ctx.Correlator(bad), 'Correlator')
    else:
        if bad != 1.5:
            refused(lambda: ctx.CorrelationIterator(1, bad), 'CorrelationIterator')
            refused(lambda: ctx.CorrelationIterator(bad, 1), 'CorrelationIterator')
            refused(lambda: setattr(it, 'k', bad), 'k')
    consistent(ctx, cor, m)
    still_right(ctx, cor, n, m)


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for m in (1, 2):
        out += [('sequence-%d' % m, sequence, dict(n=3, m=m, length=4 if big else 3, sizes=(m, 0), ops=FEWER)),
                ('sequence-all-%d' % m, sequence, dict(n=2, m=m, length=3 if big else 2, sizes=SIZES, ops=STEPS)),
                ('storing-%d' % m, storing, dict(n=2, m=m, sizes=(m, 1.5, 0))),
                ('wrong-%d' % m, wrong, dict(m=m))]
    out += [('one-sample', sequence, dict(n=1, m=1, length=3, sizes=(1, 0), ops=FEWER)),
            ('turns', turns, dict(a=(1, 1), b=(4, 1), length=4 if big else 3, ops=FEWER)),
            ('turns-series', turns, dict(a=(2, 2), b=(3, 1), length=3, ops=FEWER))]
    for w in ('getFractionWeights', 'getGaussianWeights', 'getFractionSquaredWeights'):
        out += [('handed-over-' + w, handed_over, dict(a=(2, 1), b=(6, 1), weight=w)),
                ('handed-over-series-' + w, handed_over, dict(a=(2, 2), b=(5, 1), weight=w))]
    return out
