"""R04: UPDATE and DELETE change exactly the rows, and to exactly the values, they change on plaintext data."""
from runner import Scenario
import eu
import minisql
import symex
import r_common as rc
import r03
from r_common import setup, ASSUMPTIONS  # noqa

MUST_COVER = ('changed', 'unchanged', 'refused', 'deleted')


def fill(ctx, cols, rows, nulls, wlen=3):
    cols = ['id'] + [c for c in cols if c != 'id']
    w = r03.world(ctx, cols)
    for i in range(rows + nulls):
        r = dict(id=i + 1)
        for c in cols:
            if c != 'id' and i < rows:
                r[c] = rc.value(ctx, c, '%s%d' % (c, i), wlen)
        rc.insert(w, 't', r)
    return w, cols


def apply(ctx, w, tpl, L):
    target, text = w.render(tpl, {k: v for k, v in L.items() if '{%s}' % k in tpl})
    try:
        w.plain.execute(text)
    except minisql.SqlError as e:
        if 'Out of range' not in str(e):
            raise
        ctx.done()      # the plaintext database refuses it
    w.invoke(target)


def change(ctx, tpl, rows, nulls, again=None, wlen=3):
    w, cols = fill(ctx, rc.names(tpl + (again or '')), rows, nulls)
    L = rc.lits(ctx, tpl + (again or ''), wlen)
    n = len(w.plain.table('t').rows)
    before = [dict(r) for r in w.plain.table('t').rows]
    apply(ctx, w, tpl, L)
    if again:
        apply(ctx, w, again, L)
    r03.stored(w, 'row after the statement')
    w.query('select %s from t' % ', '.join(cols), 'rows after the statement are read back differently')
    after = w.plain.table('t').rows
    ctx.cover('deleted' if len(after) < n else 'unchanged' if all(a[c] is b[c] for a, b in zip(after, before) for c in a) else 'changed')


def maybe(ctx, tpl):
    w, cols = fill(ctx, rc.names(tpl), 1, 0)
    L = rc.lits(ctx, tpl)
    rows = [dict(r) for r in w.plain.table('t').rows]
    try:
        no, r, p = rc.refused(w, tpl, **L)
    except minisql.SqlError:
        target, _ = w.render(tpl, L)
        try:
            w.invoke(target)
        except Exception as e:      # noqa
            if isinstance(e, (symex.Unsupported, symex.core.Control)):
                raise
            ctx.cover('refused')
            r03.stored(w, 'refused statement changed the table')
            return
        r03.stored(w, 'statement that the plaintext database refuses')
        return
    if no:
        w.plain.table('t').rows = rows
        ctx.cover('refused')
    r03.stored(w, 'refused statement changed the table' if no else 'unsupported statement')


UPDATES = [
    'update t set a = {i} where id = 1', 'update t set a = {i}', "update t set s = '{x}' where id = 2", 'update t set a = {i} where a = {j}', 'update t set a = {i} where a > {j}',
    "update t set s = '{x}' where s = '{y}'", "update t set a = {i}, s = '{x}' where id = 1", "update t set s = '{x}', n = {i}, a = {j} where n > {k}", 'update t set n = {i} where a > {j}',
    'update t set n = {i} where a = {j} and n <> {k}', 'update t set a = null where id = 1', 'update t set a = null, s = null', 'update t set n = null where a < {i}', 'update t set f = {g} where id = 1',
    'update t set f = {g} where f > {h}', 'update t set d = {g}, f = {h} where d <= {g}', 'update t set n = n + {i} where a = {j} and n > -1000 and n < 1000', 'update t set a = -5 where id = 1',
    'update t set a = {i}, b = {i} where b = {j}', "update t set u = '{x}', s = '{x}' where u = '{y}'", "update t set s = '' where s = '{x}'", 'update t set a = {i} where a is null',
    'update t set a = {i} where a is not null', 'update t set a = {i} where a in ({j}, {k})', 'update t set a = 0 where not (a = 0)', 'update t set a = {i} where a between {i} and {j}',
    'update t set n = id where a >= {i}', "update t set w = '{c}', a = {i} where w = '{c}'", "update t set n = {i}, w = null where s <> '{x}'", 'update t set a = {i} where a = {i}',
    'update t set a = {i} where id = 1 or n = {j}', 'update t set a = {i} where n in ({j}, 5)', 'UPDATE `t` SET `a` = {i} WHERE `id` = 1;', 'update t set f = 5 where id = 1', 'update t set f = -2.5, d = 0',
]
DELETES = [
    'delete from t where id = 1', 'delete from t', 'delete from t where a = {i}', 'delete from t where a > {i}', "delete from t where s = '{x}'", "delete from t where s <> '{x}' and n > {i}",
    'delete from t where a is null', 'delete from t where a is not null', 'delete from t where a in ({i}, {j})', 'delete from t where not (a > {i} or n = {j})', 'delete from t where f < {g}',
    'delete from t where a between {i} and {j}', "delete from t where u = '{x}' or a = {i}", 'delete from t where n is null', 'delete from t where a >= {i} and a <= {j}', 'DELETE FROM `t` WHERE `a` = {i};',
    'delete from t where d = {g}', "delete from t where s in ('{x}', '{y}')", "delete from t where s not in ('{x}')", 'delete from t where b <> {i}',
]
TWICE = [
    ('update t set a = {i} where id = 1', 'update t set a = {j} where a = {i}'), ("update t set s = '{x}'", "delete from t where s = '{x}'"),
    ('delete from t where a = {i}', 'insert into t (id, a) values (9, {i})'), ('update t set a = {i} where n = {j}', 'delete from t where a > {i}'),
    ('update t set a = null where a = {i}', 'update t set a = {j} where a is null'), ("update t set s = '{x}' where id = 1", "update t set s = '{y}' where s = '{x}'"),
]
MAYBE = [
    'update t set a = a + 1', 'update t set a = n', 'update t set n = a', 'update t set a = b', 'update t set a = a', 'update t set s = u', 'update t set n = n + a', 'update t set n = a + 1 where id = 1',
    'update t set t.a = {i}', 'update t set t.n = {i}', 'update t set t.a = {i} where t.id = 1', 'update t set n = {i} where t.a = {j}', 'update t set a = {i} where t.a = {j}', "update t set a = '{x}'", "update t set a = '25'", "update t set a = '007'",
    'update t set u = {i}', 'update t set a = 2.5', 'update t set a = 2.0', "update t set f = '2.5'", 'update t set a = true', 'update t set n = true', "update t set s = concat(s, '{x}')",
    "update t set w = concat('a', 'b')", 'update t set a = default', 'update t set a = (select max(a) from t)', 'update t set a = {i}, a = {j}', 'update t set n = {i}, n = {j}', 'update t set zz = 1', 'update tt set a = 1',
    'update t set a = {i} limit 1', 'update t set a = {i} order by id limit 1', 'update t as x set x.a = {i}', 'update t set a = {i} where a + 1 = {j}', 'update t set a = {i} where a = n', 'update t set a = {i} where zz = 1',
    'delete from t where a = n', 'delete from t where a + 1 > {i}', 'delete from t limit 1', 'delete from t order by id limit 1', 'delete t from t where a = {i}', 'delete from t where t.a = {i}', 'delete from t where zz = {i}',
    'delete from tt', 'truncate table t', 'delete from t where a', "delete from t where s like '{x}%'", 'delete from t where {i} = a', 'delete from t where a in (select n from t)', 'delete from t where n in (select id from t)',
    'update t set n = case when a > {i} then 1 else 2 end', 'update t set n = abs(n)', 'update t set n = n - (id - {i}) where n < 1000 and n > -1000', 'update t set n = -id', 'update t set n = id - (id - 1)', 'update t set n = 7 - id - 1',
    'update t set a = -(-5)', 'update t set n = null + 1', 'update t set a = null + 1', 'update t set a = not 1', 'update t set A = {i}', 'update points.t set a = {i}', 'update t set n = (select 1)', 'update t set a = {i} where (a = {j})',
    'update t set a = {i} where a <=> {j}', 'update t set n = n * (id + 2) where n < 1000 and n > -1000', 'update t set n = n % 7 where n > 0', 'update t set a = {i} where exists (select id from t)', 'delete from t where 1', 'delete from t where 0', 'delete from t where true', 'delete from t where null',
    'update t set a = {i} where not a', 'update t set g = g / 2', 'update ignore t set a = {i}', 'delete from t where f = n', 'delete from t where b = a', 'update t set a = {i} where id = 1 and t.n = {j}',
]


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for t in UPDATES + DELETES:
        many = len(rc.names(t)) > 3
        out.append(Scenario(t, change, dict(tpl=t, rows=2 if big or not many else 1, nulls=0), '2 rows, all values', weight=2))
        if big or t in (UPDATES + DELETES)[::4]:
            out.append(Scenario('null row: ' + t, change, dict(tpl=t, rows=1, nulls=1), '1 row plus a row of NULLs'))
        if big and '{x}' in t:
            out.append(Scenario('empty word: ' + t, change, dict(tpl=t, rows=1, nulls=0, wlen=0), 'empty texts'))
    for a, b in TWICE:
        out.append(Scenario('%s; %s' % (a, b), change, dict(tpl=a, again=b, rows=2 if big else 1, nulls=1), 'all values', weight=2))
    for t in MAYBE:
        out.append(Scenario('maybe ' + t, maybe, dict(tpl=t), '1 row, all values'))
    return out
