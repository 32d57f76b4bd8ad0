"""R07: ordering, limits, groups and extrema of encrypted columns are those of the plaintext values."""
from runner import Scenario
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa
from r05 import run

MUST_COVER = ('some', 'none', 'refused')
# answered
YES = [
    'select id from t order by a', 'select id from t order by a asc', 'select id from t order by a desc', 'select a from t order by a', 'select * from t order by a desc', 'select id, f from t order by f',
    'select id from t order by f desc', 'select id, d from t order by d', 'select id from t order by b desc', 'select id from t order by a, n', 'select id from t order by n, a',
    'select id from t order by a desc, n desc', 'select id from t order by n desc, a', 'select id from t order by a, f desc', 'select id from t order by n', 'select id from t order by n desc',
    'select id from t order by a limit 1', 'select id from t order by a desc limit 1', 'select id, a from t order by a limit 2, 1', 'select id from t order by a limit 1 offset 1',
    'select id from t where n = {i} order by a', 'select id from t where a > {i} order by a desc', 'select id from t where a > {i} order by n limit 1',
    "select id, a, f from t where s = '{x}' order by f desc limit 2", 'select distinct n from t order by n', 'select distinct a from t order by a', 'select distinct a from t order by a desc limit 1',
    'select count(*) from t order by a', 'select a as x, n as y from t order by a', 'select * from t limit 2', 'select id from t limit 1, 2', 'select a from t limit 0', 'select a, n from t limit 2 offset 1',
    'select id from (select id, a from t order by a limit 1) x', 'select max(a) from t order by n', 'select max(a) from t', 'select min(a) from t', 'select max(f) from t', 'select min(d) from t',
    'select max(n) from t', 'select min(n) from t', 'select max(a), min(a) from t', 'select max(a), min(b), max(n) from t', 'select max(f), min(a), count(*) from t',
    'select count(*), max(a) from t where n > {i}', 'select max(a) from t where a < {i}', 'select min(a) from t where a between {i} and {j}', "select min(f) from t where s = '{x}'",
    'select max(a) from t where id > 5', 'select abs(max(n)) from t', 'select max(n + 1) from t', 'select max(a) as m, min(a) as k from t', 'select max(a), a from t', 'select max(a) from t limit 1',
    'select n + n, a from t', 'select n + n from t', 'select f, n + 1, a from t', 'select n + n, n + n, a from t', 'select count(distinct n) from t', 'select n, any_value(a) from t group by n',
    'select n, max(a) from t group by n', 'select n, count(*) from t group by n', 'select n, min(a), max(f) from t group by n', 'select max(a) from t group by n',
    'select n, max(a) from t where a > {i} group by n', 'select n, max(a) from t group by n order by n', 'select n, count(*) from t group by n having count(*) > 1',
    'select n, max(a) from t group by n having n > {i}', 'select max(a), n from t group by n limit 1', 'select count(*) from t having count(*) > 1',
    'select a as n, count(*) from t group by n']
# refused or answered right
ANY = [
    'select id, a as n from t having n > {i}',
    'select id from t order by -n', 'select id from t order by n + id desc', 'select id, a as x from t order by x', 'select id, a as n from t order by n', 'select id, n as w from t order by w',
    'select id from t order by s', 'select id from t order by s desc', 'select id from t order by 1', 'select a from t order by 1', 'select id from t order by t.a', 'select id from t order by a is null, a',
    'select id from t order by abs(a)', 'select id from t order by a + 1', 'select id from t order by n, s', 'select id from t order by a = 1', 'select id from t order by rand()',
    'select id from t order by null', 'select id, a from (select id, a from t) x order by a', 'select id from t order by max(a)', 'select id from t order by count(*)', 'select max(a) + 1 from t',
    'select max(a), max(a) + 1 from t', 'select max(a) + min(a) from t', 'select -max(a) from t', 'select abs(max(a)) from t', 'select max(abs(a)) from t', 'select max(-a) from t', 'select max(a + 1) from t',
    'select max(a + n) from t', 'select max(distinct a) from t', 'select max(s) from t', 'select min(s) from t', 'select max(a) as m from t', 'select max(t.a) from t', 'select greatest(a, n) from t',
    'select sum(n), avg(n) from t', 'select sum(n) from t where a = {i}', 'select max(n), sum(n), max(a) from t', 'select trim(s) from t', 'select id, trim(s) from t', 'select upper(s) from t',
    'select a, a + n from t', 'select a + a from t', 'select id, a + a from t', 'select length(s) from t', 'select id, count(a) from t', 'select ifnull(a, 0) from t', 'select bit_and(a) from t',
    'select std(a) from t', 'select id, group_concat(a) from t group by id', 'select max(case when n = 1 then a end) from t', 'select n, sum(n) from t group by n', 'select a, count(*) from t group by a',
    'select count(*) from t group by a', 'select a from t group by a', 'select n, max(a) from t group by n having max(a) > {i}', 'select n, max(a) as m from t group by n having m > {i}',
    'select n, max(a) as m from t group by n order by m', 'select id, a as x from t having x > {i}', 'select n, a from t group by n, a', 'select n, s from t group by n, s',
    'select n, max(a) from t group by n order by max(a)', 'select s, max(a) from t group by s', 'select id, n as w from t having w > {i}', 'select max(a) from t having max(a) > {i}',
    'select id, n from t having a > {i}', 'select n, max(a) from t group by n order by count(*)', 'select f, count(*) from t group by f', 'select count(*) as a, n from t group by n having a > 1',
    'select count(*) as a, n from t group by n order by a', 'select id, -n as a from t order by a', 'select id, n as a, a as n from t order by a desc', 'select n as m, count(*) from t group by m']


def one(ctx, tpl, rows, ordered, must):
    need = rc.names(tpl)
    if '*' in tpl and 'count(*)' not in tpl:
        need = ['id', 'a', 's', 'n', 'f']
    w, _ = rc.fill(ctx, need, rows, 1, wlen=2)
    run(ctx, w, tpl, must, ordered)


def scenarios(tier):
    rows = 2 if tier == 'quick' else 3
    out = []
    for must, tpls in ((True, YES), (False, ANY)):
        for tpl in tpls:
            out.append(Scenario(tpl, one, dict(tpl=tpl, rows=rows, ordered='order by' in tpl, must=must), '%d rows and a row of NULLs' % rows))
    return out
