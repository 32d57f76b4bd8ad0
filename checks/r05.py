"""R05: SELECT returns the columns and rows of the plaintext database, decrypted."""
from runner import Scenario
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa

MUST_COVER = ('some', 'none', 'refused')
# answered
ONE = [
    'id, a', 'a, id', '*', 'a', 's', 'f, d', 's, n, a, w', 'a, a', 'n, id', 'count(*)', 'distinct a', 'distinct s', 'distinct n, a', 'a as x, s as y', 'id, n as x, a as y', 'count(n)', 'id, n + 1', 'abs(n)',
    'count(*), a', 'a, count(*)', 'n, 1', '1', "'x', a", 'count(*), count(n)', 'distinct a, s', 'max(n), count(*)', '-n', 'a, a as b', 'n, null']
MANY = [
    'select t.a, u2.b from t join u2 on t.a = u2.a', 'select t.a, u2.n from t, u2 where t.a = u2.a', 'select t.id, u2.id from t join u2 on t.n = u2.n', 'select t.a from t left join u2 on t.a = u2.a',
    'select t.id, u2.a from t left join u2 on t.n = u2.n', 'select * from t join u2 on t.a = u2.a', 'select * from t left join u2 on t.s = u2.s', 'select t.s, u2.s from t inner join u2 on t.s = u2.s',
    'select t.id, u2.id from t right join u2 on t.a = u2.a', 'select a.id from t a', 'select x.a, x.s from t x', 'select t.a, u2.a from t join u2 on t.a = u2.a and t.n = u2.n', 'select t.a, u2.a from t, u2',
    'select count(*) from t join u2 on t.a = u2.a', 'select t.f, u2.f from t join u2 on t.f = u2.f', 'select t.a, u2.id from t join u2 on u2.a = t.a', 'select * from t, u2',
    'select t.a as x, u2.a as y from t join u2 on t.a = u2.a', 'select distinct t.a from t join u2 on t.n = u2.n', 'select t.id, u2.id, v.id from t join u2 on t.a = u2.a join v on u2.n = v.n',
    'select t.a, u2.a, v.a from t, u2, v where t.n = u2.n', 'select t.id, u2.id from t join u2 on t.a = u2.a limit 1', 'select * from (select * from t) x', 'select x.a from (select a, n from t) x',
    'select a from (select a, n from t where n = {i}) x', 'select count(*) from (select a from t) x']
# tables with columns of the same names under other keys (k2), or encrypted the other way round (p2)
MANY += ['select t.a, k2.a from t join k2 on t.n = k2.n', 'select k2.s, t.s from t join k2 on t.id = k2.id', 'select * from t join k2 on t.id = k2.id', 'select t.a, k2.id, k2.b, t.b from t left join k2 on t.n = k2.n', 'select k2.f, t.f, t.a from t, k2',
         'select t.a, p2.a from t join p2 on t.id = p2.id', 'select p2.n, t.n from t, p2', 'select * from t join p2 on t.id = p2.id', 'select p2.w, t.w, t.s, p2.s from t join p2 on t.id = p2.id', 'select t.n, k2.n, k2.a from t join k2 on t.id = k2.id join p2 on k2.n = p2.id']
# refused or answered right
ONE_ANY = [
    't.a', 't.a, t.n', 't.s, id', 'a as x', 'n as x', 'count(*) as c', 'count(a)', 'count(distinct a)', 'n + 1', 'a + 1', 'abs(a)', 'concat(s, w)', "concat(s, 'x')", 't.*', 'id, *',
    'case when n = 1 then a else n end', 'coalesce(a, 0)', 'a = 1', 'n = 1', 'n, a + n', 'n * 2 as m, a', 'not a', 'a is null', 'if(n = 1, n, 0)', '-a']
MANY_ANY = [
    'select x.a, y.a from t x join u2 y on x.a = y.a', 'select x.a, y.a from t as x join u2 as y on x.n = y.n', 'select x.a from t as x where x.a = {i}', 'select x.id, y.id from t x, t y where x.a = y.a',
    'select t.a, u2.a from t join u2 on t.a = u2.a where t.a > {i}', 'select t.a, u2.a from t join u2 on t.a = u2.a where t.n > {i}', 'select t.a, u2.a from t join u2 on t.a > u2.a',
    'select t.n, u2.n from t join u2 on t.n > u2.n', 'select a, n from t, u2', 'select t.a, u2.b from t join u2 on t.a = u2.b', 'select t.s, u2.a from t join u2 on t.s = u2.a',
    'select t.a, u2.n from t join u2 on t.a = u2.n', 'select t.a, u2.a from t cross join u2', 'select t.* from t join u2 on t.a = u2.a', 'select t.a, u2.a from t join u2 using (a)',
    'select t.a from t natural join u2', 'select t.id, u2.id from t join u2 on t.a = u2.a order by t.id', 'select a from (select a from t) x', 'select x.a from (select a from t where a > {i}) as x',
    'select a from (select * from t) x where a = {i}', 'select n from (select n from t) x where n > {i}', 'select x.a, y.a from (select a from t) x, (select a from t) y',
    'select max(n) from (select n from t) x', 'select z from (select a as z from t) x', 'select a from t union select a from t', 'select a from t union all select a from t',
    'select n from t union all select n from u2', 'select a from t where n in (select n from u2)', 'select a from t where a in (select a from u2)', 'select a from t where exists (select 1 from u2)',
    'select (select max(n) from u2), a from t', 'select x.a from (select a from t) x join u2 on x.a = u2.a', 'with x as (select a from t) select a from x',
    'select x.id, u2.id from (select id, a from t) as x join u2 on x.a = u2.a']

MANY_ANY += ['select t.id, k2.id from t join k2 on t.a = k2.a', 'select t.id, p2.id from t join p2 on t.a = p2.a', 'select t.id, p2.id from t left join p2 on t.n = p2.n', 'select t.id from t join p2 on t.a = p2.n', 'select t.id, k2.id from t, k2 where t.s = k2.s', 'select t.b, k2.b from t join k2 on t.a = k2.b']


def one(ctx, cols, tail, rows, must):
    tpl = 'select %s from t%s' % (cols, tail)
    need = rc.names(tpl)
    if '*' in tpl:
        need = ['id', 'a', 's', 'n', 'f']
    w, _ = rc.fill(ctx, need, rows, 1)
    run(ctx, w, tpl, must)


def run(ctx, w, tpl, must, ordered=False):
    try:
        no, r, p = rc.refused(w, tpl, **rc.lits(ctx, tpl))
    except rc.minisql.SqlError:
        ctx.done()
    if no:
        ctx.cover('refused')
        ctx.check(not must, 'a supported SELECT is refused')
        return
    ctx.cover('some' if p else 'none')
    w.same(p, r, 'SELECT returns something else than on the plaintext database', ordered)




def many(ctx, tpl, must, rows):
    w = rc.World(ctx)
    need = [c for c in rc.names(tpl) if c not in ('id', 'u')] or ['a']
    if '*' in tpl:
        need = sorted(set(need) | {'a', 'n'})
    rc.fill(ctx, need, rows - 1, 1, world=w, wlen=2)
    if 'u2' in tpl:
        cols = list(need)
        rc.TYPES['u2'] = 'int'
        rc.fill(ctx, cols, 2, 0, table='u2', world=w, wlen=2, pre='u')
        del rc.TYPES['u2']
    if ' v' in tpl:
        rc.fill(ctx, need, 1, 0, table='v', world=w, wlen=2, pre='v')
    for o in rc.ENC_OF:
        if ' ' + o in tpl:
            rc.fill(ctx, need, 1, 0, table=o, world=w, wlen=2, pre=o)
    run(ctx, w, tpl, must)


def scenarios(tier):
    rows = 2 if tier == 'quick' else 3
    out = []
    for must, ones, manys in ((True, ONE, MANY), (False, ONE_ANY, MANY_ANY)):
        for c in ones:
            out.append(Scenario('select %s' % c, one, dict(cols=c, tail='', rows=rows, must=must), '%d rows and a row of NULLs' % rows))
        for t in manys:
            out.append(Scenario(t, many, dict(tpl=t, must=must, rows=rows), 't: %d rows and a row of NULLs, other tables up to 2 rows' % (rows - 1)))
    return out
