"""H02: for a proxy that rewrites with /encrypt_sql1 or /encrypt_sql2, sends the statement itself and decrypts the rows with /decrypt_data."""
import re

import eu
import h01
import r_common as rc
from h01 import Web, make, insert, row, compare, COLS, TYPES
from runner import Scenario

ASSUMPTIONS = h01.ASSUMPTIONS + ['the proxy sends the statement it gets to the database server of the data source and hands over the rows as it gets them (JSON numbers and texts, or all values as text)']
MUST_COVER = ('answered', 'refused', 'handed on', 'decrypted')


class Ticks:
    """time.time() in milliseconds; how far it moves between two requests is symbolic"""

    def __init__(self, ctx):
        self.ctx, self.ms, self.n = ctx, 1700000000000, 0

    def time(self):
        if self.n:
            d = self.ctx.int('ms%d' % self.n, 0, 2)
            step = 0 if bool(d == 0) else 1 if bool(d == 1) else 2
            if step == 0:
                self.ctx.cover('same millisecond')
            self.ms += step
        self.n += 1
        return self.ms / 1000

    def perf_counter(self):
        return self.time()


def setup(symbolic):
    h01.setup(symbolic)


def begin(ctx, tick=False):
    web = Web(ctx)
    make(ctx, web, 1)
    if tick:
        eu.G.ec.time = Ticks(ctx)
    return web


def convert(ctx, web, k, tpl, n=2, **L):
    """-> (answer or None, text for the oracle, text given to the endpoint)"""
    w = web.w[k]
    target, text = w.render(tpl, L)
    logs = [len(s.db.log) for key, s in eu.G.servers.items() if key != 'meta']
    ok, res = web.call((h01.H.EncryptSqlHandler1, h01.H.EncryptSqlHandler2)[n - 1], dict(db=w.info['db'], sql=target))
    ctx.check(logs == [len(s.db.log) for key, s in eu.G.servers.items() if key != 'meta'], 'the statement is carried out')
    if not ok or 'error' in res:
        return None, text, target
    return res, text, target


def decrypt(ctx, web, ident, rows, texts):
    """rows as the proxy has them -> rows for the client, None: refused"""
    def out(v):
        if v is None or not texts or rc.minisql.is_text(v):
            return v
        return h01.V.SymStr.make([h01.V.NumAtom(v)]) if h01.V.is_sym(v) and isinstance(v, h01.V.SymInt) else str(v)
    data = dict(columns=['x'], rows=[[out(v) for v in r] for r in rows])
    J = h01.Json.dumps(data) if ctx.symbolic else None
    ok, res = call(web, dict(query_id=ident, data=data))
    if not ok or 'error' in res or 'data' not in res:
        return None
    ctx.check(res['query_id'] == ident, 'the answer is for another query')
    return res['data']


def call(web, body):
    """as Web.call, for a body with symbolic values"""
    if web.ctx.symbolic:
        import json
        marked = json.loads(h01.Json.dumps(body))
        return web.call(h01.H.DecryptResult, marked)
    return web.call(h01.H.DecryptResult, body)


def as_client(rows, states, texts):
    """the expected rows: values of plaintext columns stay as the proxy sent them"""
    def f(v, plain):
        if v is None or not plain or not texts or rc.minisql.is_text(v):
            return v
        return h01.V.SymStr.make([h01.V.NumAtom(v)]) if isinstance(v, h01.V.SymInt) else str(v)
    return [[f(v, p) for v, p in zip(r, states)] for r in rows]


def fetch(ctx, web, k, tpl, cols, texts, may=False, enc=None, **L):
    """a SELECT through the proxy"""
    res, text, target = convert(ctx, web, k, tpl, 2, **L)
    w = web.w[k]
    p = w.plain.execute(text)
    if res is None:
        ctx.check(may, 'a SELECT that the statement interface supports is refused')
        return
    w.retag()
    try:
        rows = w.server.db.execute(res['encrypt_sql'])
    except rc.minisql.SqlError:
        ctx.check(may, 'the server refuses the statement')
        return
    ctx.check(not w.server.db.misuse, 'the server is asked to calculate with ciphertexts')
    got = decrypt(ctx, web, res['id'], rows, texts)
    if got is None:
        ctx.check(may, '/decrypt_data does not decrypt the rows')
        return
    ctx.cover('decrypted')
    enc = h01.ENC if enc is None else enc
    if cols is not None:
        ctx.check(list(got['columns']) == cols or 'max' in tpl, 'the answer names other columns')
    states = [c.split('.')[-1] not in enc for c in (cols or [])] or [True] * (len(p[0]) if p else 0)
    compare(ctx, as_client(p, states, texts), got['rows'], 'the answer differs from the plaintext database')


def select(ctx, tpl, cols, texts, may=False):
    web = begin(ctx)
    insert(ctx, web, 1, 'query', [row(ctx, 1), dict(id=2, a=None, n=rc.num(ctx, 'n2'), s=None, f=None)])
    fetch(ctx, web, 1, tpl, cols, texts, may, **rc.lits(ctx, tpl))


def change(ctx, tpl, n):
    """a change through the proxy, then the table through /query and the proxy"""
    web = begin(ctx)
    insert(ctx, web, 1, 'query', [row(ctx, 1), row(ctx, 2)])
    L = rc.lits(ctx, tpl)
    res, text, target = convert(ctx, web, 1, tpl, n, **L)
    ctx.check(res is not None, 'a change that the statement interface supports is refused')
    w = web.w[1]
    w.retag()
    w.server.db.execute(res['encrypt_sql'])
    w.plain.execute(text)
    h01.ask(ctx, web, 'select * from t', COLS, 'query', 1, '', {})
    fetch(ctx, web, 1, 'select * from t', COLS, False)


def refused(ctx, tpl, n):
    """what cannot be rewritten and names a table of EulerDB is not handed on"""
    web = begin(ctx)
    insert(ctx, web, 1, 'query', [row(ctx, 1)])
    res, text, target = convert(ctx, web, 1, tpl, n, **rc.lits(ctx, tpl))
    if res is not None:
        ctx.check(bool(res['encrypt_sql']), 'the answer has neither a statement nor an error')
        ctx.check(res['encrypt_sql'] != target, 'a statement on an encrypted table is handed on as it is')
        sent = res['encrypt_sql']
        sent = sent if isinstance(sent, str) else ''.join(chr(c) if isinstance(c, int) else '?' for c in sent.items)
        ctx.check(not re.search(r'\bt\b', sent), 'a statement on an encrypted table is handed on as it is')


def others(ctx, sql, n):
    """statements of the session and on tables that EulerDB does not know are handed on"""
    web = begin(ctx)
    res, text, target = convert(ctx, web, 1, sql, n)
    ctx.check(res is not None and res['encrypt_sql'] == sql, 'a statement on no table of EulerDB is not handed on')
    ctx.cover('handed on')


def interleaved(ctx, db2):
    """rows are decrypted as the statement they belong to, whichever order the requests have"""
    web = begin(ctx, tick=True)
    insert(ctx, web, 1, 'query', [row(ctx, 1)])
    k2 = 1
    if db2:
        make(ctx, web, 2, encrypted={'n': dict(key='other', fuzzy=False), 'a': dict(key='third', fuzzy=False)})
        insert(ctx, web, 2, 'query', [row(ctx, 1, 'q')])
        k2 = 2
    asked = []
    for k, tpl in ((1, 'select s, a from t'), (k2, 'select n, a from t where id = 1'), (1, 'select max(a), id from t')):
        res, text, _ = convert(ctx, web, k, tpl)
        ctx.check(res is not None, 'a SELECT that the statement interface supports is refused')
        w = web.w[k]
        w.retag()
        asked.append((res['id'], w.server.db.execute(res['encrypt_sql']), w.plain.execute(text)))
    first = ctx.int('first', 0, 2)
    i = 0 if bool(first == 0) else 1 if bool(first == 1) else 2
    for j in (i, (i + 1) % 3, (i + 2) % 3, i):
        ident, rows, p = asked[j]
        got = decrypt(ctx, web, ident, rows, False)
        ctx.check(got is not None, '/decrypt_data does not decrypt the rows')
        compare(ctx, [list(x) for x in p], got['rows'], 'the answer differs from the plaintext database')
    ctx.cover('decrypted')
    ok, res = call(web, dict(query_id='77', data=dict(rows=[['1', '2']])))
    ctx.check(not ok or 'data' not in res, 'rows of an unknown query are decrypted')


def kinds(ctx, dbs):
    """columns of the same name and key, that hold the same text, are decrypted as values of their own types"""
    web = begin(ctx, tick=True)
    v = rc.num(ctx, 'v')
    text = h01.V.SymStr.make([h01.V.NumAtom(v)]) if ctx.symbolic else str(v)
    enc = {'a': dict(key=eu.KEY, fuzzy=False)}
    asked = []
    for i, (type_, x) in enumerate((('int', v), ('varchar(20)', text))):
        k, t = (1, 'k%d' % i) if not dbs else (i + 1, 'kk')
        make_kind = 'create table %s (id int, a %s)' % (t, type_)
        web.w[k].plain.execute(make_kind)
        ok, res, _ = h01.post(web, k, make_kind, enc)
        ctx.check(ok, 'CREATE TABLE through /query fails')
        tpl = "insert into %s (id, a) values (1, %s)" % (t, "'{v}'" if type_[0] == 'v' else '{v}')
        ok, res, sql = h01.post(web, k, tpl, v=x)
        ctx.check(ok, 'INSERT fails')
        web.w[k].plain.execute(sql)
        asked.append((k, 'select a from %s' % t))
    i = int(bool(ctx.flag('first')))
    for j in (i, 1 - i, i):
        k, tpl = asked[j]
        fetch(ctx, web, k, tpl, ['a'], False)
        ok, res, sql = h01.post(web, k, tpl)
        ctx.check(ok, 'SELECT through /query fails')
        compare(ctx, [list(r) for r in web.w[k].plain.execute(sql)], res['result'], 'the answer differs from the plaintext database')


def remade(ctx, how):
    """the table is dropped or made again before the rows are decrypted"""
    web = begin(ctx, tick=True)
    insert(ctx, web, 1, 'query', [row(ctx, 1)])
    w = web.w[1]
    res, text, _ = convert(ctx, web, 1, 'select s, a, n from t')
    w.retag()
    rows, p = w.server.db.execute(res['encrypt_sql']), w.plain.execute(text)
    ok, _, _ = h01.post(web, 1, 'drop table t')
    ctx.check(ok, 'DROP TABLE through /query fails')
    w.plain.execute('drop table t')
    if how == 'made again':
        make(ctx, web, 1, encrypted={'n': dict(key='other', fuzzy=False), 'a': dict(key='third', fuzzy=False)})
        insert(ctx, web, 1, 'query', [row(ctx, 1, 'q')])
    got = decrypt(ctx, web, res['id'], rows, False)
    if got is not None:
        compare(ctx, [list(x) for x in p], got['rows'], 'the answer differs from the plaintext database')
    if how == 'made again':
        fetch(ctx, web, 1, 'select * from t', COLS, False, enc={'n': 1, 'a': 1})


SELECTS = h01.SELECTS + [
    ('select max(a), min(a) from t', ['a', 'a']), ('select count(*) from t where a > {i}', None), ('select t.a, t.n from t', ['t.a', 't.n']),
]
MAY = ['select a from t where a in (select a from t where n > {i})', 'select sum(n), id from t', 'select distinct a from t', 'select x.a, y.n from t as x join t as y on x.a = y.a', 'select a, count(*) from t group by a', 'select a as b from t', 'select * from (select a, n from t) as q']
CHANGES = ['update t set a = {i} where n = {j}', "update t set s = '{x}', n = {i} where a = {j}", 'delete from t where a < {i}', "insert into t (id, a, s) values (7, {i}, '{x}')",
           "insert into t (id, a, s) values (7, {i}, '{x}'), (8, null, null)"]
REFUSED = ["select a from t where s > '{x}'", 'insert into t values (1, {i}, 2)', 'select sum(a) from t', 'select avg(a) from t', 'selct a from t', "explain select a from t where s = '{x}'", 'replace into t (id, a) values (1, {i})',
           'truncate table t', 'create table t (id int)', "select a from t where nosuch = {i}", "insert into t (id, nosuch) values (1, {i})", 'update t set nosuch = {i}', 'select a + {i} from t', "select id from `t` where s > '{x}'",
           "select id from points.t where s > '{x}'", "select\nid\nfrom\nt\nwhere s > '{x}'", "insert into t(id, a) values (1, {i}) on duplicate key update a = {i}", "select id from T where s > '{x}'", "delete from t where s > '{x}'",
           "insert into t (id, a) select {i}, {j}"]
OTHERS = ['select @@version_comment limit 1', 'select 1', 'select database()', 'select user()', 'set names utf8', 'show tables', 'begin', 'commit', 'rollback', 'use points', 'select @@session.auto_increment_increment', 'set autocommit=1',
          'select * from information_schema.tables', 'select * from other where x = 3', "insert into other (x) values (5)", 'create table other (x int)', 'select tt.x from tt', "show variables like 'a%'", 'select t2.x from t2, at']


def scenarios(tier):
    out = []
    for tpl, cols in SELECTS:
        for texts in (False, True):
            if texts and 'f' in (cols or ()):
                continue
            out.append(Scenario('%s%s' % (tpl, ' (values as text)' if texts else ''), select, dict(tpl=tpl, cols=cols, texts=texts), 'two rows, symbolic values and constants'))
    for tpl in MAY:
        out.append(Scenario(tpl, select, dict(tpl=tpl, cols=None, texts=False, may=True), 'two rows, symbolic values and constants'))
    for n in (1, 2):
        for tpl in CHANGES:
            out.append(Scenario('encrypt_sql%d: %s' % (n, tpl), change, dict(tpl=tpl, n=n), 'two rows, symbolic values and constants'))
        for tpl in REFUSED:
            out.append(Scenario('encrypt_sql%d: %s' % (n, tpl), refused, dict(tpl=tpl, n=n), 'symbolic constants'))
        for sql in OTHERS:
            out.append(Scenario('encrypt_sql%d: %s' % (n, sql), others, dict(sql=sql, n=n), 'one statement'))
    for d in (False, True):
        out.append(Scenario('three queries%s' % (', two databases' if d else ''), interleaved, dict(db2=d), 'three queries, any order of decryption, clock steps of 0 to 2 ms'))
    for d in (False, True):
        out.append(Scenario('two types%s' % (', two databases' if d else ''), kinds, dict(dbs=d), 'one value as int and text, any order of the queries'))
    for how in ('dropped', 'made again'):
        out.append(Scenario('table %s' % how, remade, dict(how=how), 'one row'))
    return out
