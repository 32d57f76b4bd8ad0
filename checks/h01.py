"""H01: the HTTP endpoints answer with what the statement returns, on the data source and with the encryption that the request names."""
import json
import sys
import types

import eu
import r_common as rc
from runner import Scenario
from symex import values as V
from symex import sx_and

ASSUMPTIONS = rc.ASSUMPTIONS + [
    'tornado is replaced: post() and get() run to their end in the calling thread, write() accepts what json.dumps accepts (dictionary, text or bytes as tornado does), '
    'an error that leaves the method is an error answer',
    'JSON text carries every value as it is (numbers, texts, null)',
]
MUST_COVER = ('answered', 'refused', 'no rows')
H = None


class HTTPError(Exception):
    def __init__(self, status_code=500, log_message=None, *args, **kw):
        self.status_code, self.log_message = status_code, log_message


class RequestHandler:
    def set_status(self, code, reason=None):
        self.status = code

    def set_header(self, *a):
        pass

    def finish(self, chunk=None):
        if chunk is not None:
            self.write(chunk)

    def get_argument(self, name, *default):
        v = self.request.arguments.get(name)
        if v is None:
            if default:
                return default[0]
            raise HTTPError(400)
        return v[0].decode('utf8')

    def write(self, chunk):
        if not isinstance(chunk, (dict, str, bytes)):
            raise TypeError("write() only accepts bytes, unicode, and dict objects")
        self.written.append(serial(chunk))


def coroutine(f):
    def run(*a, **k):
        g = f(*a, **k)
        if not hasattr(g, 'send'):
            return g
        v = None
        try:
            while True:
                v = g.send(v)
        except StopIteration as e:
            return e.value
    return run


def serial(x):
    """what json.dumps accepts, as json.loads gives it back"""
    if x is None or isinstance(x, (bool, int, float, str, V.SymInt, V.SymFloat, V.SymStr, V.SymBool)):
        return x
    if isinstance(x, (list, tuple)):
        return [serial(y) for y in x]
    if isinstance(x, dict):
        return {k if isinstance(k, str) else json.dumps(k): serial(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return x.decode('utf8')
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


class Json:
    """json whose texts carry symbolic values as numbered marks"""
    JSONDecodeError = json.JSONDecodeError
    marks = {}

    @classmethod
    def dumps(cls, x, *a, **k):
        def enc(y):
            if V.is_sym(y):
                n = 'sym:%d' % len(cls.marks)
                cls.marks[n] = y
                return n
            if isinstance(y, (list, tuple)):
                return [enc(z) for z in y]
            if isinstance(y, dict):
                return {kk: enc(z) for kk, z in y.items()}
            return y
        return json.dumps(enc(x), *a, **k)

    @classmethod
    def loads(cls, text, *a, **k):
        def dec(y):
            if isinstance(y, str) and y in cls.marks:
                return cls.marks[y]
            if isinstance(y, list):
                return [dec(z) for z in y]
            if isinstance(y, dict):
                return {kk: dec(z) for kk, z in y.items()}
            return y
        return dec(json.loads(text, *a, **k))


def setup(symbolic):
    global H
    rc.setup(symbolic)
    t = types.ModuleType('tornado')
    t.web = types.ModuleType('tornado.web')
    t.web.RequestHandler, t.web.HTTPError = RequestHandler, HTTPError
    t.web.URLSpec = t.web.Application = lambda *a, **k: None
    t.gen = types.ModuleType('tornado.gen')
    t.gen.coroutine = coroutine
    t.concurrent = types.ModuleType('tornado.concurrent')
    t.concurrent.run_on_executor = lambda f: f
    for n in ('tornado', 'tornado.web', 'tornado.gen', 'tornado.concurrent'):
        sys.modules[n] = t if n == 'tornado' else getattr(t, n.split('.')[1])
    import handler
    H = handler
    if symbolic:
        H.json = Json


SOURCES = {1: ('127.0.0.1', 3306, 'points', 'root', 'pw'), 2: ('db2.example', 3307, 'orders', 'eve', 'secret'), 3: ('127.0.0.1', 3306, 'orders', 'root', 'pw')}


class Web:
    def __init__(self, ctx):
        Json.marks.clear()
        self.ctx = ctx
        self.w = {1: eu.World(ctx)}
        for k in (2, 3):
            w = self.w[k] = eu.World.__new__(eu.World)
            w.ctx, w.plain, w.n, w.plain_log = ctx, eu.MiniDB(), 2000 * k, []
        for k, w in self.w.items():
            w.info = dict(zip(('host', 'port', 'db', 'user', 'password'), SOURCES[k]))
        H.db_conn = eu.connect(db=eu.G.meta_name)
        db = eu.G.servers['meta'].db
        db.execute('create table p_datasource (id bigint, name varchar(256), username varchar(256), password varchar(256), connection_url varchar(256), '
                   'driver_class_name varchar(256), ping varchar(256))')
        for k, (host, port, name, user, pw) in SOURCES.items():
            db.execute("insert into p_datasource values (%d, 'source%d', '%s', '%s', 'jdbc:mysql://%s:%d/%s', 'com.mysql.jdbc.Driver', 'select 1')" % (k, k, user, pw, host, port, name))
        db.execute("insert into p_datasource values (9, 'other', 'sa', '', 'jdbc:h2:mem:x', 'org.h2.Driver', 'select 1')")

    def call(self, cls, body=None, arguments=None, method='post', args=()):
        """-> (answered, what was written)"""
        h = cls.__new__(cls)
        h.written = []
        h.request = types.SimpleNamespace(body=json.dumps(body).encode() if body is not None else b'', arguments=arguments or {})
        before = len(eu.G.connects)
        try:
            getattr(h, method)(*args)
        except Exception as e:      # noqa
            rc.control(e)
            import os
            if os.environ.get('VERIF_TB'):
                import traceback
                open(os.environ['VERIF_TB'], 'a').write(traceback.format_exc())
            self.ctx.cover('refused')
            return False, None
        self.connects = [c for c in eu.G.connects[before:] if c.get('db', c.get('database')) != eu.G.meta_name]
        for w in self.w.values():
            if (w.info['host'], str(w.info['port']), w.info['db']) in eu.G.servers:
                w.retag()
        self.ctx.check(len(h.written) <= 1, 'more than one answer')
        self.ctx.cover('answered')
        return True, h.written[0] if h.written else None


def post(web, k, tpl, encrypted=None, **L):
    """statement through /query: -> (answered, rows, columns), plaintext rows"""
    w = web.w[k]
    target, text = w.render(tpl, L)
    body = dict(w.info, query=target)
    if encrypted is not None:
        body['encrypted_columns'] = encrypted
    ok, res = web.call(H.PostHandler, body)
    return ok, res, text


def jdbc(web, k, tpl, extra='', encrypted=None, ciphertext=False, idtype=int, ident=None, **L):
    w = web.w[k]
    ident = idtype(k if ident is None else ident)
    target, text = w.render(tpl, L)
    if encrypted is None:
        body = dict(sqlQuery=target + extra, jdbcDataSourceId=ident, ciphertext=ciphertext)
    else:
        body = dict(create_table=target, selectedJdbcDataSource=dict(value=ident, label='source'), encrypted_columns=encrypted)
    ok, res = web.call(H.QueryHandler, body)
    return ok, res, text


def plain(w, text):
    return w.plain.execute(text)


def compare(ctx, p, r, what):
    ctx.note('expected', p)
    ctx.note('got', r)
    ctx.check(len(p) == len(r), what + ' (number of rows)')
    for x, y in zip(p, r):
        ctx.check(len(x) == len(y), what + ' (number of columns)')
        for a, b in zip(x, y):
            if a is None or b is None:
                ctx.check(a is None and b is None, what + ' (NULL)')
            else:
                ctx.check(rc.minisql.is_text(a) == rc.minisql.is_text(b), what + ' (type of a value)')
                ctx.check(a == b, what)


def rows_of(ctx, res, names=None, types_=None):
    """rows of an answer of /jdbc_query in the order of its columns"""
    if not res:
        return []
    ctx.check(set(res) >= {'columns', 'data', 'error'} and res['error'] is None, 'the answer has no result')
    cols = [c['name'] for c in res['columns']]
    if names:
        ctx.check(cols == names, 'the answer names other columns')
    if types_:
        for c, t in zip(res['columns'], types_):
            if t in ('int', 'varchar'):
                ctx.check(c['dbType'] == t.upper(), 'the answer names other types')
    J = H.json
    return [[row.get(n, 'missing') for n in cols] for row in J.loads(res['data'])]


ENC = {'a': dict(key=eu.KEY, fuzzy=False), 's': dict(key='k2', fuzzy=True), 'f': dict(key=eu.KEY, fuzzy=False)}
TABLE = 'create table t (id int, a int, n int, s varchar(20), f float, m varchar(5))'
COLS = ['id', 'a', 'n', 's', 'f', 'm']
TYPES = ['int', 'int', 'int', 'varchar', 'float', 'varchar']


def make(ctx, web, k, how='query', encrypted=None, keep=True):
    w = web.w[k]
    w.plain.execute(TABLE)
    enc = ENC if encrypted is None else encrypted
    if how == 'query':
        ok, res, _ = post(web, k, TABLE, enc)
        ctx.check(ok and res == {'result': []}, 'CREATE TABLE through /query fails')
    else:
        ok, res, _ = jdbc(web, k, TABLE, encrypted=repr(enc) if how == 'jdbc text' else enc)
        ctx.check(ok and res == {}, 'CREATE TABLE through /jdbc_query fails')
    stored(ctx, web, k, 't', enc)


def stored(ctx, web, k, table, enc):
    """the metadata has the encryption that was asked for"""
    cols = web.w[k].meta[table]['columns']
    for c, info in cols.items():
        if c in enc:
            ctx.check(not info['plaintext'] and info['key'] == enc[c]['key'], 'a column is encrypted otherwise than asked for')
            ctx.check(('fuzzy' in info['enc-cols']) == bool(enc[c]['fuzzy']), 'fuzzy search otherwise than asked for')
        else:
            ctx.check(info['plaintext'], 'a column is encrypted though not asked for')


def insert(ctx, web, k, how, rows):
    for i, r in enumerate(rows):
        L, parts = {}, []
        for c, v in r.items():
            L[c] = v
            parts.append('null' if v is None else "'{%s}'" % c if rc.minisql.is_text(v) else '{%s}' % c)
        tpl = 'insert into t (%s) values (%s)' % (', '.join(r), ', '.join(parts))
        ok, res, text = (jdbc if how == 'jdbc' else post)(web, k, tpl, **{c: v for c, v in L.items() if v is not None})
        ctx.check(ok, 'INSERT fails')
        ctx.check(res in ({'result': []}, {}), 'INSERT answers with something else')
        plain(web.w[k], text)


def row(ctx, i, pre=''):
    return dict(id=i, a=rc.num(ctx, '%sa%d' % (pre, i)), n=rc.num(ctx, '%sn%d' % (pre, i)), s=rc.word(ctx, '%ss%d' % (pre, i), 3), f=rc.eighth(ctx, '%sf%d' % (pre, i)), m='x')


SELECTS = [
    ('select * from t', COLS), ('select a, s from t where a > {i}', ['a', 's']), ('select s, id from t where n = {i}', ['s', 'id']),
    ("select id, f, a from t where s = '{x}' or a is null", ['id', 'f', 'a']), ('select n, f, m from t order by id desc', ['n', 'f', 'm']),
    ('select id from t where a between {i} and {j}', ['id']), ('select s from t where id = 99', ['s']),
]


def select(ctx, tpl, cols, how, k=1, extra='', create='query'):
    web = Web(ctx)
    make(ctx, web, k, create)
    insert(ctx, web, k, how, [row(ctx, 1), dict(id=2, a=None, n=rc.num(ctx, 'n2'), s=None, f=None)])
    L = rc.lits(ctx, tpl)
    ask(ctx, web, tpl, cols, how, k, extra, L)


def ask(ctx, web, tpl, cols, how, k, extra, L, ident=None):
    if how == 'query':
        ok, res, text = post(web, k, tpl, **L)
    elif how == 'jar':
        target, text = web.w[k].render(tpl, L)
        args = dict(web.w[k].info, query=target)
        ok, res = web.call(H.PostHandler_jar, None, {n: [str(v).encode()] for n, v in args.items() if n not in ('host', 'port')})
    else:
        ok, res, text = jdbc(web, k, tpl, extra, idtype=str if extra else int, ident=ident, **L)
    p = plain(web.w[k], text)
    ctx.check(ok, 'a SELECT that the statement interface supports is refused')
    info = web.w[k].info
    for c in web.connects:
        ctx.check((c.get('host'), str(c.get('port')), c.get('db', c.get('database')), c.get('user'), c.get('passwd', c.get('password'))) ==
                  (info['host'], str(info['port']), info['db'], info['user'], info['password']), 'connected to another database than the request names')
    if not p:
        ctx.cover('no rows')
    if how == 'jdbc':
        rows = rows_of(ctx, res, cols if p else None, [TYPES[COLS.index(c)] for c in cols])
    else:
        rows = res['result']
        if p:
            ctx.check(list(res['columns'][0]) == cols, 'the answer names other columns')
            ctx.check(list(res['columns'][1]) == [TYPES[COLS.index(c)] for c in cols], 'the answer names other types')
    compare(ctx, [list(x) for x in p], rows, 'the answer differs from the plaintext database')


def sources(ctx, tpl, cols, how):
    """two data sources with a table of the same name: each request reaches the one it names"""
    web = Web(ctx)
    make(ctx, web, 1, 'jdbc' if how == 'jdbc' else 'query')
    make(ctx, web, 2, 'jdbc' if how == 'jdbc' else 'query', {'n': dict(key='other', fuzzy=False), 's': dict(key='third', fuzzy=False)})
    insert(ctx, web, 1, how, [row(ctx, 1, 'p')])
    insert(ctx, web, 2, how, [row(ctx, 1, 'q'), dict(id=2, s=rc.word(ctx, 'qs2', 2))])
    L = rc.lits(ctx, tpl)
    at = ctx.int('source', 1, 2)
    k = 1 if bool(at == 1) else 2
    ask(ctx, web, tpl, cols, how, k, '', L)
    ask(ctx, web, tpl, cols, how, 3 - k, '', L)


def moved(ctx, tpl, cols, endpoint):
    """a data source is what p_datasource says at the time of the request"""
    web = Web(ctx)
    for k in (1, 2):
        make(ctx, web, k, 'jdbc', None if k == 1 else {'n': dict(key='other', fuzzy=False), 's': dict(key='third', fuzzy=False)})
        insert(ctx, web, k, 'jdbc', [row(ctx, 1, 'pq'[k - 1])])
    db = eu.G.servers['meta'].db

    def convert(k):
        w = web.w[k]
        ok, res = web.call(H.EncryptSqlHandler, dict(sqlQuery=tpl, jdbcDataSourceId=1))
        ctx.check(ok and set(res) == {'encrypt_sql'}, '/encrypt_sql fails')
        w.retag()
        compare(ctx, [[None] * len(x) for x in plain(w, tpl)], [[None] * len(x) for x in w.server.db.execute(res['encrypt_sql'])], 'the statement is rewritten for another data source')
    for at in (1, 2, 1):
        host, port, name, user, pw = SOURCES[at]
        db.execute("update p_datasource set connection_url = 'jdbc:mysql://%s:%d/%s', username = '%s', password = '%s' where id = 1" % (host, port, name, user, pw))
        if endpoint == 'encrypt_sql':
            convert(at)
        else:
            ask(ctx, web, tpl, cols, 'jdbc', at, '', {}, ident=1)


def change(ctx, tpl, how):
    web = Web(ctx)
    make(ctx, web, 1)
    insert(ctx, web, 1, how, [row(ctx, 1), row(ctx, 2)])
    L = rc.lits(ctx, tpl)
    ok, res, text = post(web, 1, tpl, **L) if how == 'query' else jdbc(web, 1, tpl, ';', **L)
    plain(web.w[1], text)
    ctx.check(ok and res in ({'result': []}, {}), 'a change that the statement interface supports is refused')
    ask(ctx, web, 'select * from t', COLS, how, 1, '', {})


def errors(ctx, how):
    """what fails is answered with an error, and changes nothing"""
    web = Web(ctx)
    make(ctx, web, 1)
    insert(ctx, web, 1, how, [row(ctx, 1)])
    for tpl in ('select * from nosuch', 'select nosuch from t', 'selct a from t', 'insert into t (id, a) values (1)', "select a from t where s > '{x}'", 'drop table nosuch'):
        L = rc.lits(ctx, tpl)
        ok, res, text = post(web, 1, tpl, **L) if how == 'query' else jdbc(web, 1, tpl, **L)
        ctx.check(not ok or (isinstance(res, dict) and res.get('error')), 'a statement that fails is answered as if it had succeeded')
    ok, res = web.call(H.PostHandler, {})
    ctx.check(not ok, 'an empty request is answered')
    ask(ctx, web, 'select * from t', COLS, how, 1, '', {})


def raw(ctx):
    """`ciphertext` asks for the stored values"""
    web = Web(ctx)
    make(ctx, web, 1)
    insert(ctx, web, 1, 'jdbc', [row(ctx, 1)])
    ok, res, text = jdbc(web, 1, 'select id, a, s from t', ciphertext=True)
    ctx.check(ok, 'a request for ciphertexts is refused')
    (r,) = rows_of(ctx, res, ['id', 'a', 's'])
    w = web.w[1]
    stored_ = w.server.db.tables[w.meta['t']['anonymous']].rows[0]
    for c, v in zip(('id', 'a', 's'), r):
        info = w.meta['t']['columns'][c]
        ctx.check(v == stored_[info['enc-cols']['symmetric'] if not info['plaintext'] else c], 'a request for ciphertexts gets something else')


def column(ctx, i, name, type_, length):
    enc = ctx.flag('enc%d' % i)
    fuz = ctx.flag('fuzzy%d' % i)
    key = 'key%d' % i
    return dict(name=name, type=type_, length=length, encryption='true' if enc else 'false', fuzzy='True' if fuz else 'false', token=key), (dict(key=key, fuzzy=bool(fuz)) if enc else None)


def designer(ctx, cols, count):
    """/create_table makes the columns that were drawn up, encrypted as they say"""
    web = Web(ctx)
    got = [column(ctx, i, *c) for i, c in enumerate(cols)]
    ok, res = web.call(H.CreateHandler, dict(selectedJdbcDataSource=dict(value=2, label='x'), dataSource=[g[0] for g in got] + [dict(name='more')] * (0 if count is None else 1),
                                             count=len(cols), table_name='v'))
    w = web.w[2]
    ctx.check(ok and res == {}, '/create_table fails')
    enc = {c[0]: g[1] for c, g in zip(cols, got) if g[1]}
    ctx.check(list(w.meta['v']['columns']) == [c[0] for c in cols], '/create_table makes other columns')
    stored(ctx, web, 2, 'v', enc)
    for c in cols:
        ctx.check(w.meta['v']['columns'][c[0]]['type'] == c[1].lower(), '/create_table makes columns of another type')
    L, parts, decl = {}, [], []
    for i, c in enumerate(cols):
        text = c[1].lower() in ('varchar', 'char')
        L['v%d' % i] = rc.word(ctx, 'v%d' % i, 3) if text else 420 + i if got[i][1] and got[i][1]['fuzzy'] else rc.num(ctx, 'v%d' % i)
        parts.append("'{v%d}'" % i if text else '{v%d}' % i)
        decl.append('%s %s' % (c[0], c[1] + ('(%s)' % c[2] if text else '')))
    w.plain.execute('create table v (%s)' % ', '.join(decl))
    for tpl in ('insert into v (%s) values (%s)' % (', '.join(c[0] for c in cols), ', '.join(parts)), 'select * from v'):
        ok, res, text = post(web, 2, tpl, **L)
        ctx.check(ok, 'a table made by /create_table cannot be used')
        p = w.plain.execute(text)
    compare(ctx, [list(x) for x in p], res['result'], 'the answer differs from the plaintext database')


def schema(ctx, drop):
    """/jdbc_query/schema lists the tables of the data source and marks the encrypted columns"""
    web = Web(ctx)
    made = {1: {}, 2: {}}
    for k, t, cols in ((1, 'alpha', (('id', 'int', '0'), ('name', 'varchar', '9'))), (1, 'beta', (('x', 'varchar', '7'), ('y', 'float', '0'), ('z', 'int', '0'))), (2, 'gamma', (('q', 'int', '0'),))):
        enc = {c[0]: dict(key='k' + c[0], fuzzy=False) for c in cols if bool(ctx.flag('enc ' + c[0]))}
        decl = ', '.join('%s %s' % (c[0], c[1] + ('(%s)' % c[2] if c[2] != '0' else '')) for c in cols)
        ok, res, _ = jdbc(web, k, 'create table %s (%s)' % (t, decl), encrypted=enc)
        ctx.check(ok, 'CREATE TABLE through /jdbc_query fails')
        made[k][t] = [(c[0], c[1], c[0] in enc) for c in cols]
    if drop:
        ok, res, _ = post(web, 1, 'drop table alpha')
        ctx.check(ok, 'DROP TABLE through /query fails')
        del made[1]['alpha']
        ok, res, _ = post(web, 2, 'drop table gamma')
        del made[2]['gamma']
    for k in (1, 2):
        ok, res = web.call(H.SchemaHandler, method='get', args=(str(k),))
        ctx.check(ok, '/jdbc_query/schema fails')
        got = json.loads(res) if isinstance(res, str) else res
        ctx.note('schema %d' % k, got)
        got = [t for t in got if t]
        ctx.check([t['name'] for t in got] == sorted(made[k]), '/jdbc_query/schema lists other tables')
        for t in got:
            want = made[k][t['name']]
            ctx.check([c.get('name') for c in t['columns']] == [n + ' *' if e else n for n, _, e in want], '/jdbc_query/schema lists other columns or marks others as encrypted')
            for c, (n, ty, e) in zip(t['columns'], want):
                ctx.check(ty not in ('int', 'varchar') or c['javaType'] == dict(int='INTEGER', varchar='VARCHAR')[ty], '/jdbc_query/schema gives other types')


def foreign(ctx):
    """a data source that is not MySQL, or does not exist, gives no rows"""
    web = Web(ctx)
    make(ctx, web, 1)
    insert(ctx, web, 1, 'query', [row(ctx, 1)])
    n = sum(len(s.db.log) for k, s in eu.G.servers.items() if k != 'meta')
    for k in (9, 77):
        ok, res = web.call(H.QueryHandler, dict(sqlQuery='select * from t', jdbcDataSourceId=k, ciphertext=False))
        ctx.check(not ok or not res or res.get('error'), 'a request for another data source is answered with rows')
        ok, res = web.call(H.EncryptSqlHandler, dict(sqlQuery='select * from t', jdbcDataSourceId=k))
    ctx.check(n == sum(len(s.db.log) for k, s in eu.G.servers.items() if k != 'meta'), 'a request for another data source reaches a database')


def convert(ctx, tpl, how):
    """/encrypt_sql gives the statement that EulerDB itself would send"""
    web = Web(ctx)
    make(ctx, web, 1)
    insert(ctx, web, 1, 'query', [row(ctx, 1), row(ctx, 2)])
    L = rc.lits(ctx, tpl)
    w = web.w[1]
    target, text = w.render(tpl, L)
    n = len(w.server.db.log)
    if how == 'source':
        ok, res = web.call(H.EncryptSqlHandler, dict(sqlQuery=target + ';', jdbcDataSourceId=1))
    else:
        ok, res = web.call(H.EncryptSqlHandler, dict(w.info, query=target, backend=True))
    ctx.check(ok and set(res) == {'encrypt_sql'}, '/encrypt_sql fails')
    ctx.check(n == len(w.server.db.log), '/encrypt_sql carries the statement out')
    sent = res['encrypt_sql']
    rows = w.server.db.execute(sent)
    p = plain(w, text)
    ctx.check(not w.server.db.misuse, 'the server is asked to calculate with ciphertexts')
    if tpl.startswith('select id'):
        compare(ctx, [list(x) for x in p], [list(x) for x in rows], 'the statement of /encrypt_sql selects other rows')
    else:
        ask(ctx, web, 'select * from t', COLS, 'query', 1, '', {})


def scenarios(tier):
    out = []
    for tpl, cols in SELECTS:
        for how in ('query', 'jdbc', 'jar'):
            out.append(Scenario('%s: %s' % (how, tpl), select, dict(tpl=tpl, cols=cols, how=how, k=1, create={'query': 'query', 'jdbc': 'jdbc text', 'jar': 'query'}[how]),
                                'two rows, symbolic values and constants'))
    for k in (2, 3):
        for extra in ('', ';', ';;'):
            out.append(Scenario('jdbc: source %d%s' % (k, extra), select, dict(tpl=SELECTS[1][0], cols=SELECTS[1][1], how='jdbc', k=k, extra=extra, create='jdbc'), 'two rows'))
    for how in ('query', 'jdbc'):
        out.append(Scenario('sources: ' + how, sources, dict(tpl='select s, n, a from t where n > {i}', cols=['s', 'n', 'a'], how=how), 'two data sources, either order'))
        for tpl in ('update t set a = {i} where n = {j}', "update t set s = '{x}', n = {i} where a = {j}", 'delete from t where a < {i}', "insert into t (id, a, s) values (7, {i}, '{x}')"):
            out.append(Scenario('%s: %s' % (how, tpl), change, dict(tpl=tpl, how=how), 'two rows, symbolic values and constants'))
        out.append(Scenario('errors: ' + how, errors, dict(how=how), 'seven failing requests'))
    for e in ('jdbc', 'encrypt_sql'):
        out.append(Scenario('data source moved: ' + e, moved, dict(tpl='select s, n, a from t', cols=['s', 'n', 'a'], endpoint=e), 'two databases with a table each'))
    out.append(Scenario('jdbc: ciphertexts', raw, {}, 'one row'))
    V9 = [('id', 'int', '0'), ('name', 'varchar', '9'), ('c', 'CHAR', '4'), ('n', 'INT', '11')]
    out.append(Scenario('create_table', designer, dict(cols=V9[:3], count=None), '3 columns, encryption and fuzzy search of each symbolic'))
    out.append(Scenario('create_table, first columns only', designer, dict(cols=V9[1:], count=1), '3 columns, encryption and fuzzy search of each symbolic'))
    for d in (False, True):
        out.append(Scenario('schema%s' % (', dropped tables' if d else ''), schema, dict(drop=d), '3 tables, encryption of each column symbolic'))
    out.append(Scenario('other data sources', foreign, {}, 'one row'))
    for tpl in ('select id from t where a > {i} and n < {j}', "select id from t where s = '{x}'", 'update t set a = {i} where n = {j}', "insert into t (id, a, s) values (7, {i}, '{x}')", 'delete from t where f = {g}'):
        for how in ('source', 'backend'):
            out.append(Scenario('encrypt_sql %s: %s' % (how, tpl), convert, dict(tpl=tpl, how=how), 'two rows, symbolic values and constants'))
    return out
