"""P24: tables of records behave like lists of rows."""
import io
from .base import Check, repo

CHECK = Check(
    'P24', 'Tables keep every record that was added, in order, as it was',
    functions=['common/utils.py: DynamicRecArray, Dynamic2DArray (append, extend, truncate, indexing, data, row_repr, savetxt)'],
    bounds='1..3 columns, arbitrary values; up to 40 records (four enlargements of the storage), with up to three removals anywhere between; all indices from both ends',
    outside='removal from an empty table; columns of other types than float')
case = CHECK.case


def table(columns=('u', 'v')):
    from common import utils
    units = [('u', 'MeV', 1e-3), ('v', None, 1.), ('w', 's', 4.)]
    return utils.DynamicRecArray([list(c) for c in units if c[0] in columns])


def same(ctx, t, rows, names):
    """the table is that list of rows"""
    ctx.true(len(t) == len(rows), 'as many records as were added and not removed')
    ctx.true(len(t.data) == len(rows), 'the data have as many records')
    for j, name in enumerate(names):
        column = t[name]
        ctx.true(len(column) == len(rows), 'columns have a value per record')
        for k, row in enumerate(rows):
            ctx.eq(column[k], row[j], 'columns hold the values in order')
    for k in sorted({0, 1, len(rows) // 2, len(rows) - 2, len(rows) - 1} & set(range(len(rows)))):
        for at in (k, k - len(rows)):
            for j, name in enumerate(names):
                ctx.eq(t[at][name], rows[k][j], 'records are found by index, from both ends')
    if rows:
        ctx.eq(t.data[names[0]][-1], rows[-1][0], 'the data end with the last record')


def row(ctx, i, n):
    # a few unknowns reused in different positions keep the queries small without losing distinctness
    return tuple(ctx.real('v%d_%d' % (i, j)) for j in range(n))


def add(ctx, t, r, names, form):
    if form == 'dict':
        t.append(dict(reversed(list(zip(names, r)))))
    elif form == 'tuple':
        t.append(r)
    else:
        t.extend([r])


def grow(ctx, names):
    """any number of records, whichever way they are added"""
    repo(ctx)
    t = table(names)
    rows = []
    n = ctx.pick('records', [0, 1, 7, 8, 9, 10, 11, 14, 16, 23, 35])
    form = ctx.pick('form', ['dict', 'tuple', 'extend'])
    for i in range(n):
        r = row(ctx, i, len(names))
        add(ctx, t, r, names, form)
        rows.append(r)
    same(ctx, t, rows, names)


case('grow_1', args=(('v',),))(grow)
case('grow_2', args=(('u', 'v'),))(grow)
case('grow_3', args=(('u', 'v', 'w'),), tier='thorough')(grow)


def remove(ctx, first, tier):
    """removals of the last record anywhere between additions"""
    repo(ctx)
    names = ('u', 'v')
    t = table(names)
    rows = []
    i = 0
    phases = [first, ctx.pick('second', [0, 1, 2, 5, 8]), ctx.pick('third', [0, 3, 9])]
    for p, k in enumerate(phases):
        for _ in range(k):
            r = row(ctx, i, 2)
            i += 1
            add(ctx, t, r, names, 'dict' if i % 2 else 'tuple')
            rows.append(r)
        if rows and p < 2:
            for _ in range(min(ctx.pick('removed%d' % p, [0, 1, 3]), len(rows))):
                t.truncate()
                rows.pop()
                ctx.true(len(t) == len(rows) == len(t['u']), 'as many records as were added and not removed')
                if rows:
                    ctx.eq(t['v'][-1], rows[-1][1], 'the one before is the last record after a removal')
                    ctx.eq(t[-1]['u'], rows[-1][0], 'the one before is the last record after a removal')
    same(ctx, t, rows, names)


for k in (1, 7, 8, 9, 14):
    case('remove_%d' % k, args=(k, 'quick'))(remove)
for k in (2, 10, 13, 15, 20, 22):
    case('remove_%d' % k, args=(k, 'thorough'), tier='thorough')(remove)


@case()
def apart(ctx):
    """tables do not share records, and keep what they were given when it changes later"""
    repo(ctx)
    names = ('u', 'v')
    a, b = table(), table()
    ra, rb = [], []
    for i in range(12):
        r = row(ctx, i, 2)
        if i % 3:
            record = dict(zip(names, r))
            a.append(record)
            ra.append(r)
            record['u'] = -1.
        else:
            record = dict(zip(names, r))
            b.append(record)
            rb.append(r)
            record['v'] = -1.
    same(ctx, a, ra, names)
    same(ctx, b, rb, names)


def lines(f):
    return [l.split('\t') for l in f.getvalue().decode('latin1').split('\n') if l]


@case()
def rows(ctx):
    """records shown as text are in the units of the table"""
    repo(ctx)
    names = ('u', 'v', 'w')
    units = {'u': 1e-3, 'v': 1., 'w': 4.}
    t = table(names)
    n = ctx.pick('records', [1, 2, 10])
    for i in range(n):
        t.append(row(ctx, i, 3))
    if n > 1 and ctx.flag('removed'):
        t.truncate()
        n -= 1
    for k in {0, n // 2, n - 1, -1, -n}:
        text = t.row_repr(k).split('\t')
        ctx.true(len(text) == 3, 'a value for every column')
        for j, name in enumerate(names):
            ctx.eq(ctx.printed(text[j]) * units[name], t[name][k], 'values are shown in the units of their columns', tol=1e-6)
        named = t.row_repr(k, names=True).split('\t')
        for j, (name, unit) in enumerate(zip(names, (' MeV', '', ' s'))):
            head, value = named[j].split(' = ')
            ctx.true(head == name, 'values are named after their columns')
            ctx.true(value.endswith(unit) and (' ' in value) == bool(unit), 'values are shown with their unit')
            shown = ctx.printed(value[:len(value) - len(unit)])
            ctx.eq(shown * units[name], t[name][k], 'values are shown in the units of their columns', tol=1e-3)


@case()
def saved(ctx):
    """the whole table is written to the file"""
    repo(ctx)
    names = ('u', 'v', 'w')
    units = {'u': 1e-3, 'v': 1., 'w': 4.}
    t = table(names)
    n = ctx.pick('records', [1, 2, 9, 16])
    for i in range(n):
        t.append(row(ctx, i, 3))
    if n > 1 and ctx.flag('removed'):
        t.truncate()
        n -= 1
    f = io.BytesIO()
    t.savetxt(f)
    text = lines(f)
    ctx.true(len(text) == n + 1, 'a heading, and a line for every record')
    ctx.true([x.strip('# ') for x in text[0]] == ['u, MeV', 'v', 'w, s'], 'the heading names the columns and their units')
    for k, line in enumerate(text[1:]):
        ctx.true(len(line) == 3, 'a value for every column')
        for j, name in enumerate(names):
            ctx.eq(ctx.printed(line[j]) * units[name], t[name][k], 'values are written in the units of their columns')


# ---------------------------------------------------------------- two-dimensional tables

def same2(ctx, t, rows):
    ctx.true(len(t) == len(rows) == len(t.data), 'as many rows as were added and not removed')
    for k, r in enumerate(rows):
        for j, v in enumerate(r):
            ctx.eq(t.data[k][j], v, 'the data hold the rows in order')
            ctx.eq(t[k][j], v, 'rows are found by index')
            ctx.eq(t[k - len(rows)][j], v, 'rows are found by index from the end')
            ctx.eq(t[k, j], v, 'values are found by row and column')
    for j in range(len(t.header)):
        column = t[:, j]
        ctx.true(len(column) == len(rows), 'columns have a value per row')
        for k, r in enumerate(rows):
            ctx.eq(column[k], r[j], 'columns hold the values in order')


def plane(ctx, n):
    """rows of a two-dimensional table"""
    repo(ctx)
    from common import utils
    import numpy
    head = [1., 2.5, 4.][:n]
    t = utils.Dynamic2DArray(numpy.array(head))
    rows = []
    k = ctx.pick('rows', [0, 1, 8, 9, 10, 15, 17, 24])
    whole = ctx.flag('extend')
    for i in range(k):
        rows.append(row(ctx, i, n))
        if not whole:
            t.append(numpy.array(rows[-1], dtype=object) if ctx.symbolic else numpy.array(rows[-1]))
    if whole:
        t.extend(rows)
    same2(ctx, t, rows)
    for m in range(2):
        if rows and ctx.flag('removed%d' % m):
            t.truncate()
            rows.pop()
            same2(ctx, t, rows)
    for i in range(ctx.pick('more', [0, 2])):
        rows.append(row(ctx, 50 + i, n))
        t.append(rows[-1])
    same2(ctx, t, rows)
    if rows:
        f = io.BytesIO()
        t.savetxt(f)
        text = lines(f)
        ctx.true(len(text) == len(rows) + 1, 'a heading, and a line for every row')
        for h, shown in zip(head, text[0]):
            ctx.true(abs(float(shown.strip('# ')) - h) < 1e-5 * h, 'the heading shows the grid')
        for r, line in zip(rows, text[1:]):
            for v, shown in zip(r, line):
                ctx.eq(ctx.printed(shown), v, 'values are written as they are')


case('plane_1', args=(1,))(plane)
case('plane_2', args=(2,))(plane)
