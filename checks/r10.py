"""R10: SUM and AVG of encrypted columns are those of the plaintext values."""
import symex
from runner import Scenario
from symex import sx_and, sx_or
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa
from symex import values as V

MUST_COVER = ('some', 'null', 'refused', 'between')
HOMO = [787659527, 1023624989]
HOMO2 = [1000000007, 998244353]
ENC = {'t': {'a': dict(arithmetic=True, homomorphic_key=HOMO), 'b': dict(arithmetic=True, homomorphic_key=HOMO2, key=rc.K2), 'f': dict(arithmetic=True, homomorphic_key=HOMO), 's': dict(fuzzy=True),
             'd': dict(arithmetic=True, homomorphic_key=HOMO2)}}
ENC['u2'] = {'a': dict(arithmetic=True, homomorphic_key=HOMO2), 'b': dict(arithmetic=True, homomorphic_key=HOMO), 's': {}}
ASSUMPTIONS = ASSUMPTIONS + [
    'Paillier contract (property C07): ciphertexts are integers below n^2 whose products modulo n^2 decrypt to the sum; a number that is not such a product decrypts to something unrelated',
    'user variables of MySQL are kept per connection; a SELECT with assignments in the select list and ORDER BY fills its temporary table row by row before sorting']
YES = ['select sum(a) from t', 'select avg(a) from t', 'select sum(a), avg(a) from t', 'select avg(a), sum(a) from t', 'select sum(a), sum(b) from t', 'select sum(f) from t', 'select avg(f), sum(a) from t', 'select sum(d) from t',
       'select sum(a), avg(b), sum(b), avg(a) from t', 'select sum(a), count(*) from t', 'select count(*), sum(a) from t', 'select max(a), sum(a) from t', 'select sum(a), max(n), min(a) from t', 'select sum(a), sum(n) from t',
       'select avg(a), avg(n), sum(n) from t', 'select sum(a), sum(a) from t',
       'select sum(a) from t where n > {i}', 'select avg(a) from t where n > {i}', 'select sum(a) from t where a > {i}', "select sum(a) from t where s = '{x}'", 'select avg(b) from t where n = {i} or a = {j}',
       'select sum(a), avg(b) from t where a between {i} and {j}', "select sum(a) from t where s like '%{y}%'", 'select sum(a) from t where a is null', 'select sum(a), count(*) from t where a is not null',
       'select sum(a) from t where id in (1, 2)', 'select sum(a) from t where not (n = {i})', 'select sum(a), max(a) from t where n in ({i}, {j})', 'select sum(n) from t where a > {i}',
       'select sum(a) from t limit 1', 'select sum(a) from t limit 5', 'select sum(a) from t where n > {i} limit 1', 'select sum(a) as x, avg(a) as y from t', 'select sum(a) from t order by n', 'select sum(t.a) from t', 'select avg(t.a) from t']
ANY = ['select sum(a) from t where t.n > {i}', 'select sum(a) as x from t', 'select sum(a) from t limit 0', 'select sum(a) from t limit 1, 1', 'select n, sum(a) from t group by n', 'select sum(a) from t group by n', 'select avg(a), n from t group by n order by n', 'select sum(a) from t group by a', 'select sum(a), n from t',
       'select n, sum(a) from t', 'select a, sum(a) from t', 'select sum(a), 1 from t', 'select sum(distinct a) from t', 'select avg(distinct a) from t', 'select count(a), sum(a) from t', 'select sum(a) + 1 from t', 'select sum(a) + sum(b) from t',
       'select sum(a + b) from t', 'select sum(a + 1) from t', 'select sum(a + n) from t', 'select sum(-a) from t', 'select -sum(a) from t', 'select abs(sum(a)) from t', 'select sum(abs(a)) from t', 'select sum(a) / count(*) from t', 'select sum(a) * 2 from t',
       'select sum(a) from t having count(*) > 1', 'select sum(a) from t having sum(a) > {i}', 'select n, sum(a) from t group by n having sum(a) > {i}', 'select n, count(*) from t group by n having sum(a) > {i}', 'select n from t group by n order by sum(a)',
       'select sum(a) from t order by a', 'select sum(a) from t order by sum(a)', 'select distinct sum(a) from t', 'select sum(s) from t', 'select avg(s) from t', 'select sum(x.a) from t x', 'select sum(a) from t x', 'select sum(x.a) from t as x where x.n > {i}',
       'select sum(x.a), count(*) from t as x', 'select avg(a) from t as x', 'select sum(a) from (select a from t) x', 'select sum(x.a) from (select * from t) x', 'select avg(x.a) from (select a, n from t where n > {i}) x', 'select sum(t.a) from t join u2 on t.n = u2.n', 'select sum(u2.a), sum(t.a) from t, u2',
       'select sum(t.b), sum(u2.a) from t join u2 on t.n = u2.n', 'select sum(t.a), max(u2.a) from t join u2 on t.n = u2.n where t.n > {i}', 'select sum(a) from t union select sum(b) from t', 'select sum(case when n = 1 then a end) from t',
       'select sum(if(n = 1, a, 0)) from t', 'select std(a), sum(a) from t', 'select sum(a) from t where n = (select max(n) from t)', 'select id from t where a > (select avg(a) from t)', 'select sum(ifnull(a, 0)) from t', 'select ifnull(sum(a), 0) from t',
       'select coalesce(sum(a), 0) from t', 'select round(avg(a), 1) from t', 'select sum(a) from u2', 'select sum(a), avg(b) from u2', 'select sum(a), sum(b) from t where n = {i} union all select sum(a), sum(b) from u2', 'select (select sum(a) from t), n from t', 'select sum(a), group_concat(n) from t',
       'select sum(a), avg(b), (select count(*) from t) from t', 'select a + b from t', 'select a + a from t', 'select t.a + t.b from t', 'select id, a + f from t', 'select a + b, sum(a) from t']


def make(ctx, table, w, rows, nulls, cols, pre=''):
    rc.ENC_OF['own'] = ENC[table]
    w.create('create table %s (%s)' % (table, rc.columns(cols)), {c: rc.spec(**ENC[table][c]) for c in cols if c in ENC[table]})
    vals = []
    for i in range(rows):
        r = dict(id=i + 1)
        for c in cols:
            if c == 'id':
                continue
            # NULLs anywhere among the rows
            if i in nulls and c in ('a', 'b', 'f', 'd'):
                continue
            r[c] = rc.value(ctx, c, '%s%s%d' % (pre, c, i), 3)
        rc.insert(w, table, r)
        vals.append(r)
    return vals


def close(x, y):
    """AVG is rounded to four digits by both; floats are compared within the precision of the encoding"""
    def q(v):
        if isinstance(v, float):
            from fractions import Fraction
            return Fraction(v)
        return v
    x, y = q(x), q(y)
    d = x - y
    lim = 2 if isinstance(x, V.SymFloat) or isinstance(y, V.SymFloat) else 2
    return sx_and(d * 10 ** 4 <= lim, d * 10 ** 4 >= -lim)


def same(ctx, p, r, avg):
    ctx.note('expected', p)
    ctx.note('got', r)
    what = 'SUM / AVG return something else than on the plaintext database'
    ctx.check(len(p) == len(r), what + ' (number of rows)')
    for a, b in zip(p, r):
        ctx.check(len(a) == len(b), what + ' (number of columns)')
        for i, (x, y) in enumerate(zip(a, b)):
            if x is None or y is None:
                ctx.check(x is None and y is None, what + ' (NULL)')
            elif rc.minisql.is_text(x) or rc.minisql.is_text(y):
                ctx.check(rc.minisql.is_text(x) and rc.minisql.is_text(y) and bool(x == y), what)
            elif i in avg:
                ctx.check(close(x, y), what)
            else:
                ctx.check(x == y, what)


def one(ctx, tpl, rows, nulls, must):
    need = [c for c in rc.names(tpl) if c != 'id']
    w = rc.World(ctx)
    cols = ['id'] + need
    if '*' in tpl.replace('(*)', ''):
        cols = ['id', 'a', 'n']
    make(ctx, 't', w, rows, nulls, cols)
    if 'u2' in tpl:
        make(ctx, 'u2', w, 1, (), cols, 'u')
    L = rc.lits(ctx, tpl, 3 if 'like' in tpl else 2)
    try:
        no, r, p = rc.refused(w, tpl, **L)
    except rc.minisql.SqlError:
        ctx.done()
    if no:
        ctx.cover('refused')
        ctx.check(not must, 'a supported SELECT is refused')
        return
    ctx.cover('null' if any(x is None for row in p for x in row) else 'some')
    import re
    sel = re.match(r'select (?:distinct )?(.*?) from', tpl).group(1).split(', ')
    same(ctx, p, r, {i for i, e in enumerate(sel) if 'avg' in e})


def history(ctx, steps):
    """sums follow the changes of the table and do not depend on earlier statements"""
    w = rc.World(ctx)
    make(ctx, 't', w, 1, (), ['id', 'a', 'n'])
    for i, s in enumerate(steps):
        L = {k: rc.num(ctx, '%s%d' % (k, i)) for k in 'ijk' if '{%s}' % k in s}
        target, text = w.render(s, L)
        p = w.plain.execute(text)
        r = w.invoke(target)
        if s.startswith('select'):
            ctx.cover('null' if any(x is None for row in p for x in row) else 'some')
            same(ctx, p, r, {k for k, e in enumerate(re_items(s)) if 'avg' in e})


def re_items(s):
    return s[len('select '):s.index(' from')].split(', ')


HISTORIES = [
    ['insert into t (id, a, n) values (2, {i}, {j})', 'select sum(a), avg(a) from t', 'update t set a = {i} where n = {j}', 'select sum(a) from t', 'delete from t where n = {j}', 'select sum(a), avg(a) from t'],
    ['select sum(a) from t', 'select avg(a) from t where n > {i}', 'select sum(a) from t where n > {j}'],
    ['update t set a = null', 'select avg(a), sum(a) from t', 'insert into t (id, a) values (3, {i}), (4, {j})', 'select avg(a), sum(a) from t'],
    ['delete from t', 'select sum(a), avg(a), count(*) from t', 'insert into t (id, a) values (5, {i})', 'select sum(a), avg(a), count(*) from t'],
    ['insert into t (id, a, n) values (2, {i}, {j}), (3, {k}, 1)', 'select a from t', 'select sum(a) from t', 'select n from t', 'select avg(a) from t where n = 1'],
]


def other(ctx, tpl, between):
    """another request between any two statements of one"""
    w = rc.World(ctx)
    make(ctx, 't', w, 2, (1,), ['id', 'a', 'b', 'n'])
    G = rc.eu.G
    at = ctx.int('at', 0, 9)
    ctx.note('at', at)
    state = {'n': 0, 'busy': False}

    def step(server, op, sql):
        if server is w.server and op == 'execute' and not state['busy']:
            if bool(at == state['n']):
                state['busy'] = True
                for s in between:
                    w.invoke(s)
                state['busy'] = False
                state['n'] += 100
                ctx.cover('between')
            state['n'] += 1
    G.fault = step
    try:
        no, r, p = rc.refused(w, tpl)
    finally:
        G.fault = None
    ctx.check(not no, 'a supported SELECT is refused')
    ctx.cover('some')
    same(ctx, p, r, {i for i, e in enumerate(re_items(tpl)) if 'avg' in e})


def scenarios(tier):
    out = []
    for must, tpls in ((True, YES), (False, ANY)):
        for tpl in tpls:
            for rows, nulls in ((0, ()), (2, ()), (2, (0,)), (3, (1,)), (2, (0, 1))) if must else ((3, (1,)),) + (((4, (0, 2)), (0, ())) if tier != 'quick' else ()):
                if must and tier == 'quick' and rows in (0, 3) and '{' in tpl and 'n > {i}' not in tpl:
                    continue
                out.append(Scenario('%s [%d rows, NULL in %s]' % (tpl, rows, list(nulls)), one, dict(tpl=tpl, rows=rows, nulls=nulls, must=must), '%d rows, NULLs in some of them' % rows))
    for h in HISTORIES:
        out.append(Scenario('; '.join(h), history, dict(steps=h), 'one row at the start, a history of %d statements' % len(h)))
    for tpl in ('select sum(a), avg(a) from t', 'select avg(a), sum(b) from t'):
        for between in (['select avg(b), sum(b) from t'], ['select n from t where id = 1'], ['select avg(a) from t where id = 2']):
            out.append(Scenario('%s, meanwhile %s' % (tpl, '; '.join(between)), other, dict(tpl=tpl, between=between), 'another request at any place between the statements'))
    return out
