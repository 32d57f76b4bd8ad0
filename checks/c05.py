"""C05: LIKE on a column with fuzzy search selects the same rows as on plaintext."""
from runner import Scenario
import eu
import minisql
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa

MUST_COVER = ('some', 'none', 'refused')
ASSUMPTIONS = ASSUMPTIONS + ['texts do not end in NUL characters (C03); two base64 texts match at whole ciphertexts only']

ALNUM = [(0x61, 0x63), (0x30, 0x31)]
MIXED = [(0x61, 0x63), (0x20, 0x20), (0x2d, 0x2d)]
WIDE = [(0x61, 0x62), (0x4e2d, 0x4e2e), (0x20, 0x20)]
SETS = dict(alnum=ALNUM, mixed=MIXED, wide=WIDE)


def pattern(ctx, shape, sizes, alphabet):
    """shape: e.g. '%p%q' with words p, q of the given sizes"""
    out, k = '', 0
    for ch in shape:
        if ch == '%':
            out = out + '%'
        else:
            out = out + eu.word(ctx, 'word' + ch, sizes[k], SETS[alphabet])
            k += 1
    return out


def run(ctx, shape, sizes, alphabet, lens, op='like', cond="{c}", typ='varchar(40)'):
    w = eu.World(ctx)
    w.create('create table t (id int, s %s)' % typ, {'s': eu.spec(fuzzy=True)})
    for i, n in enumerate(lens):
        if n is None:
            w.both('insert into t (id, s) values (%d, null)' % (i + 1))
            continue
        w.both("insert into t (id, s) values (%d, '{s}')" % (i + 1), s=eu.word(ctx, 's%d' % i, n, SETS[alphabet]))
    p = pattern(ctx, shape, sizes, alphabet)
    c = cond.replace('{c}', "s %s '{p}'" % op)
    L = dict(p=p)
    try:
        no, r, e = rc.refused(w, 'select id, s from t where ' + c, **L)
    except minisql.SqlError:
        ctx.done()
    if no:
        ctx.cover('refused')
        ctx.check(any(n < 3 for n in sizes), 'LIKE pattern refused although every word has three characters')
        return
    w.same(e, r, 'LIKE selects other rows than on plaintext')
    ctx.cover('some' if e else 'none')


def fixed(ctx, c, n, alphabet, typ='varchar(40)'):
    """patterns that may be refused; integers"""
    w = eu.World(ctx)
    w.create('create table t (id int, s %s)' % typ, {'s': eu.spec(fuzzy=True)})
    for i in range(1):
        if typ == 'int':
            v = eu.num(ctx, 's%d' % i, *n)
            w.both('insert into t (id, s) values (%d, {s})' % (i + 1), s=v)
        elif typ in ('float', 'double'):
            w.both('insert into t (id, s) values (%d, %s)' % (i + 1, ctx.choice('v', [1.125, -1.5, 500.0, 0.5005])))
        else:
            w.both("insert into t (id, s) values (%d, '{s}')" % (i + 1), s=eu.word(ctx, 's%d' % i, n, SETS[alphabet]))
    try:
        no, r, e = rc.refused(w, 'select id from t where ' + c)
    except minisql.SqlError:
        ctx.done()
    if no:
        ctx.cover('refused')
        ctx.check(True, 'unsupported pattern answered with wrong rows instead of an error')
        return
    w.same(e, r, 'unsupported pattern answered with wrong rows instead of an error')


def ints(ctx, val, c):
    """integers with fuzzy search: the value is concrete text, the solver decides over the row choice only"""
    w = eu.World(ctx)
    w.create('create table t (id int, a int)', {'a': eu.spec(fuzzy=True)})
    v = ctx.choice('v', val)
    ctx.note('v', v)
    w.both('insert into t (id, a) values (1, %d)' % v)
    w.query('select id, a from t where ' + c, 'LIKE selects other rows than on plaintext')


FIXED = ["s like 'a_c'", "s like '%ab_%'", "s like '%a\\\\%bc%'", "s like s", "s like id", "s not like 'a__'", "s like concat('%', 'abc')", "s like 5", "s like 'ab'", "s like '%ab%'", "s like true",
         "s rlike 'abc'", "s like ''", "s like '%'", "s not like '%%'", "s like null", "s = '%abc%'", "s in ('%abc%')", "'abc' like s"]


def scenarios(tier):
    big = tier != 'quick'
    out = []
    shapes = [('p', (3,)), ('%p%', (3,)), ('p%', (3,)), ('%p', (3,)), ('%p%', (4,)), ('%p%', (2,)), ('%p%q%', (3, 3)), ('p%q', (3, 3)), ('%p%%', (3,))]
    if big:
        shapes += [('p', (4,)), ('p', (6,)), ('%p%', (5,)), ('p%q%', (3, 4)), ('%p%q', (4, 3)), ('%%p%%q%%', (3, 3)), ('%p%q%', (3, 2)), ('p%q%r', (3, 3, 3)), ('%p%q%r%', (3, 3, 3))]
    for shape, sizes in shapes:
        need = sum(sizes)
        lens = [0, 1, 2, 3, 4, 5, 6, 7] if len(sizes) == 1 else ([5, 6, 7] if len(sizes) == 2 else [7, 9])
        if not big:
            lens = [x for x in lens if x in ((0, 2, 3, 5) if shape == '%p%' and need == 3 else (5, need))]
        for al in ('alnum', 'mixed', 'wide') if big else ('alnum', 'mixed'):
            for n in lens:
                out.append(Scenario("%s like %s%s in length %d" % (al, shape, list(sizes), n), run, dict(shape=shape, sizes=sizes, alphabet=al, lens=(n,)),
                                    'every text of length %d, every word of the pattern' % n))
        for al, n in (('mixed', 5), ('alnum', 4)):
            out.append(Scenario("%s not like %s%s in length %d" % (al, shape, list(sizes), n), run, dict(shape=shape, sizes=sizes, alphabet=al, lens=(n,), op='not like'),
                                'every text of length %d' % n))
    for cond in ["not {c}", "{c} and id = 1", "id = 2 or {c}", "not ({c} or id = 2)", "{c} or {c}", "id = 1 and not {c}", "id > 0 and {c}"]:
        out.append(Scenario('condition ' + cond, run, dict(shape='%p%', sizes=(3,), alphabet='mixed', lens=(4,), cond=cond), 'every text of length 4'))
        out.append(Scenario('condition not like ' + cond, run, dict(shape='%p', sizes=(3,), alphabet='mixed', lens=(4,), op='not like', cond=cond), 'every text of length 4'))
    out.append(Scenario('null row', run, dict(shape='%p%', sizes=(3,), alphabet='mixed', lens=(4, None)), 'a NULL row'))
    out.append(Scenario('null row not like', run, dict(shape='%p%', sizes=(3,), alphabet='alnum', lens=(4, None), op='not like'), 'a NULL row'))
    for c in FIXED:
        for n, al in ((3, 'alnum'), (4, 'mixed')):
            out.append(Scenario('fixed %s %s %d' % (c, al, n), fixed, dict(c=c, n=n, alphabet=al), 'every text of length %d' % n))
    out.append(Scenario('float column', fixed, dict(c="s like '%500%'", n=0, alphabet='', typ='float'), 'multiples of 1/8'))
    out.append(Scenario('double column', fixed, dict(c="s not like '125%'", n=0, alphabet='', typ='double'), 'multiples of 1/8'))
    for c in ("a like '%123%'", "a like '-12%'", 'a like 123', "a not like '123%'", "a like '%234'", "a like 12345", "a not like -123"):
        out.append(Scenario('int ' + c, ints, dict(val=[0, 12, 123, -123, 1234, -1234, 12345, 2123, -12345], c=c), 'nine integers'))
    return out
