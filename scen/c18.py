"""C18: reading a file equals building from its numbers."""
from .lib import *
from . import large

BOUNDS = {'quick': 'files of up to 3 data rows of 2 to 5 columns (numbers in 8 written forms, each standing for every real of that sign; third columns without a number) with 6 separators, '
                   'comment, blank and title lines before, between and after up to 5 rows, both line ends, with and without a final line end',
          'thorough': 'up to 4 data rows'}
ASSUMES = ['numbers in a file are written in a form the C++ library reads (digits, sign, point, exponent)']
SEPS = [' ', ',', '\t', ', ', ' , ', '  \t']
FORMS = ['plain', 'neg', 'plus', 'frac', 'negfrac', 'exp', 'dot', 'nexp']
NOISE = ['', '# 1 2 3', '#', 'time,flux', 'Time (days)\tflux 1 2', '   ', '#1,2', 'title']


class File:
    def __init__(self, ctx):
        self.ctx = ctx
        self.lines = []
        self.t, self.x, self.e = [], [], []
        self.has = None

    def row(self, sep, forms, cols, third='number', lead='', trail=''):
        ctx = self.ctx
        i = len(self.t)
        cells = []
        for c in range(cols):
            if c == 2 and third != 'number':
                cells.append(third)
                continue
            txt, v = ctx.number('%s%d' % ('txefg'[c], i), forms[(i + c) % len(forms)])
            cells.append(txt)
            if c == 0: self.t.append(v)
            if c == 1: self.x.append(v)
            if c == 2: self.e.append(v)
        if len(self.e) < len(self.t):
            self.e.append(ctx.NAN)
        if self.has is None:
            self.has = cols > 2 and third == 'number'
        self.lines.append(lead + sep.join(cells) + trail)

    def verify(self, via, end='\n', final=True):
        ctx = self.ctx
        name = ctx.file(end.join(self.lines) + (end if final else ''))
        ds = ctx.DataStructure(name) if via == 'DataStructure' else ctx.SACF(filename=name).data
        ref = ctx.DataStructure(list(self.t), list(self.x), list(self.e)) if self.has else ctx.DataStructure(list(self.t), list(self.x))
        ctx.exact(ds.timeseries(), self.t, 'times')
        ctx.exact(ds.data(), [self.x], 'data')
        ctx.exact(ds.errors(), [self.e] if self.has else [], 'errors')
        ctx.check(ds.N_datasets == 1, 'number of series')
        ctx.check(ds.M_datapoints == len(self.t), 'number of samples')
        ctx.eq(ds.normalised_timeseries(), ref.normalised_timeseries(), 'relative times')
        ctx.eq(ds.normalised_data(), ref.normalised_data(), 'centred data')
        ctx.eq(ds.mean_data, ref.mean_data, 'mean')
        ctx.eq(ds.median_time, ref.median_time, 'median')
        ctx.eq(ds.max_time, ref.max_time, 'last time')
        ctx.observe('x', ds.data())


def rows(ctx, n, via):
    """separators and columns"""
    f = File(ctx)
    sep = SEPS[ctx.choose(len(SEPS), 'separator')]
    cols = 2 + ctx.choose(4, 'columns')
    form = ctx.choose(len(FORMS), 'form')
    for i in range(n):
        f.row(sep, FORMS[form:] + FORMS[:form], cols)
    f.verify(via, final=bool(ctx.choose(2, 'final')))


def mixed(ctx, n, via):
    """each row its own number of columns"""
    f = File(ctx)
    for i in range(n):
        c = ctx.choose(6, 'columns%d' % i)
        if c < 4:
            f.row(' ', FORMS, 2 + c)
        else:
            f.row(' ', FORMS, 3 if c == 4 else 5, third=['n/a', '-', '#', '#3'][i])
    f.verify(via)


def noise(ctx, n, cols, via):
    """comments, blank lines and titles around the rows"""
    f = File(ctx)
    for i in range(n):
        c = ctx.choose(len(NOISE) + 1, 'before%d' % i)
        if c:
            f.lines.append(NOISE[c - 1])
        f.row(',', FORMS, cols)
    c = ctx.choose(len(NOISE) + 1, 'after')
    if c:
        f.lines.append(NOISE[c - 1])
    f.verify(via, end='\r\n' if ctx.choose(2, 'line end') else '\n', final=bool(ctx.choose(2, 'final')))


def late(ctx, n, cols):
    """one line that is no row anywhere among several rows"""
    f = File(ctx)
    at = ctx.choose(n + 1, 'before row')
    kind = NOISE[ctx.choose(len(NOISE), 'kind')]
    for i in range(n + 1):
        if i == at:
            f.lines += [kind] * (1 + ctx.choose(2, 'twice'))
        if i < n:
            f.row('\t', FORMS, cols, lead=' ' if i % 3 == 2 else '')
    f.verify('DataStructure')


def blanks(ctx, cols):
    """blanks and separators around the cells"""
    f = File(ctx)
    lead = ['', ' ', '\t', '  '][ctx.choose(4, 'lead')]
    trail = ['', ' ', ',', '\t', ' , '][ctx.choose(5, 'trail')]
    for i in range(2):
        f.row(SEPS[ctx.choose(len(SEPS), 'separator%d' % i)], FORMS, cols, lead=lead, trail=trail)
    f.verify('DataStructure')


def many(ctx, n, cols):
    f = File(ctx)
    f.lines.append('time flux error')
    for i in range(n):
        f.row('\t', FORMS, cols)
        if i % 5 == 3:
            f.lines.append('# comment')
    f.verify('SACF')


def vast(ctx, n, cols):
    """a long file; the numbers of its first and last rows are real"""
    f = File(ctx)
    f.row(' ', FORMS, cols)
    for i in range(n - 2):
        v = [i + 0.5, large.level(i), large.level(i + 3)][:cols]
        f.lines.append(' '.join(repr(w) for w in v))
        for l, w in zip((f.t, f.x, f.e), v):
            l.append(ctx.const(w))
        if cols == 2:
            f.e.append(ctx.NAN)
    f.row(',', FORMS, cols)
    f.verify('DataStructure')


def wide(ctx, n, cols):
    """long lines: comments, titles, padded rows, rows with many further columns"""
    f = File(ctx)
    pad = ' ' * n
    f.lines.append('#' + ' 1 2 3' * (n // 6))
    f.row(' ', FORMS, cols)
    f.lines.append('title' + pad + '5 6 7')
    f.row(',' + pad, FORMS, cols)
    f.lines.append(pad)
    f.row('\t', FORMS, cols, lead=pad, trail=pad)
    f.row(' ', FORMS, cols, trail=' 8 9' * (n // 4) if cols == 3 else '')
    f.row(' ', FORMS, cols)
    f.verify('SACF')


def bad(ctx, via):
    D = ctx.ds_module
    what = ctx.choose(2, 'what')
    if what == 0:
        name = ctx.missing_file()
    else:
        lines = []
        for i in range(2):
            c = ctx.choose(len(NOISE) + 1, 'line%d' % i)
            if c:
                lines.append(NOISE[c - 1])
        name = ctx.file('\n'.join(lines))
    P = D if via == 'DataStructure' else ctx.pkg        # the package hands on the errors
    try:
        ctx.DataStructure(name) if via == 'DataStructure' else ctx.SACF(filename=name)
    except P.BadDataFileReadException:
        ctx.check(what == 0, 'bad-file error')
        return
    except P.EmptyDataStructureException:
        ctx.check(what == 1, 'empty-data error')
        return
    ctx.fail('accepted')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for via in ('DataStructure', 'SACF'):
        out += [('rows1-' + via, rows, dict(n=1, via=via)), ('rows3-' + via, rows, dict(n=4 if big else 3, via=via)), ('bad-' + via, bad, dict(via=via))]
    out += [('mixed', mixed, dict(n=4 if big else 3, via='DataStructure')), ('mixed-SACF', mixed, dict(n=2, via='SACF')),
            ('noise2', noise, dict(n=2, cols=2, via='DataStructure')), ('noise3', noise, dict(n=2, cols=3, via='SACF')),
            ('noise1', noise, dict(n=1, cols=4, via='DataStructure')),
            ('late2', late, dict(n=5, cols=2)), ('late3', late, dict(n=4, cols=3)),
            ('blanks2', blanks, dict(cols=2)), ('blanks3', blanks, dict(cols=3)),
            ('many2', many, dict(n=40, cols=2)), ('many3', many, dict(n=40, cols=3)), ('many2-large', many, dict(n=300, cols=2)), ('many3-large', many, dict(n=150, cols=3)), ('many9', many, dict(n=5, cols=5))]
    out += [('vast2', vast, dict(n=40000, cols=2)), ('vast3', vast, dict(n=3000, cols=3))]
    out += [('wide%d-%d' % (c, n), wide, dict(n=n, cols=c)) for c in (2, 3) for n in (300, 5000)]
    return out
