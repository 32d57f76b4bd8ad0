"""The whole EulerDB pipeline against a mini MySQL: create / insert / query through execution_context.invoke,
with the same statements executed on a plaintext twin as the oracle."""
import copy
import itertools
import os
import random
import re
import sys
import types

import z3
import symex
import cryptostub
import minisql
from symex import values as V
from symex.values import SymInt, SymFloat, SymStr, NumAtom, FloatAtom, zi, mkint, sx_and, sx_or, sx_not, implies, iff
from minisql import MiniDB, SqlError

G = types.SimpleNamespace()
SYM = [False]


# ------------------------------------------------------------------ database driver stand-in

class Server:
    """one database of the fake MySQL server; one transaction at a time is open"""

    def __init__(self, name):
        self.name = name
        self.db = MiniDB()
        self.fail_next = None        # callable(sql) -> exception or None
        self.open = None             # (connection, rows of every table)
        self.conns = []

    def begin(self, conn):
        if self.open is None:
            self.open = (conn, {n: [dict(r) for r in t.rows] for n, t in self.db.tables.items()})

    def others(self, conn):
        """what other connections have not committed is not seen; it is never committed later"""
        if self.open is not None and self.open[0] is not conn:
            self.open[0].doomed = True
            self.rollback(self.open[0])

    def commit(self, conn):
        if self.open is not None and self.open[0] is conn:
            self.open = None
        elif conn.doomed:
            raise symex.Unsupported("two transactions at a time")

    def rollback(self, conn):
        if self.open is not None and self.open[0] is conn:
            for n, t in self.db.tables.items():
                t.rows = self.open[1].get(n, t.rows)
            self.open = None


class Crash(BaseException):
    """the process ends here"""


def faulty(conn, op, sql, act):
    """runs act unless G.fault says how it fails: (before or after its effect, exception, whether the connection is lost)"""
    f = G.fault(conn.server, op, sql) if G.fault else None
    if f is None:
        return act()
    after, exc, lost = f
    if after:
        act()
    if lost:
        conn.closed = True
        conn.server.rollback(conn)
    raise exc


class Conn:
    def __init__(self, server, kw):
        self.server, self.kw = server, kw
        self.closed = self.doomed = False
        self.vars = {}
        server.conns.append(self)

    def cursor(self, *a, **k):
        if self.closed:
            raise driver_error("MySQL Connection not available.")
        return Cursor(self)

    def commit(self):
        if self.closed:
            raise driver_error("MySQL Connection not available.")
        faulty(self, 'commit', '', lambda: self.server.commit(self))

    def rollback(self):
        if self.closed:
            raise driver_error("MySQL Connection not available.")
        self.server.rollback(self)
        self.doomed = False

    def ping(self, *a, **k):
        if self.closed:
            raise driver_error("MySQL Connection not available.")

    def close(self):
        self.closed = True
        self.server.rollback(self)


def driver_error(msg):
    import mysql.connector.errors
    return mysql.connector.errors.OperationalError(msg)


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.result = None

    @property
    def connection(self):
        return self.conn

    def execute(self, sql, params=None):
        if not sql:
            return          # as mysql.connector does
        if self.conn.closed:
            raise driver_error("MySQL Connection not available.")
        s = self.conn.server
        if params is not None:
            parts = sql.split('%s')
            if len(parts) != len(params) + 1 or not all(isinstance(p, str) for p in params):
                raise symex.Unsupported("parametrised statement")
            sql = ''.join(a + ("'" + b.replace('\\', '\\\\').replace("'", "''") + "'") for a, b in zip(parts, params)) + parts[-1]
        G.sent.append((s.name, sql))
        if s.fail_next is not None:
            e = s.fail_next(sql)
            if e is not None:
                raise e

        def act():
            st = minisql.parse(sql)
            s.others(self.conn)
            if st['kind'] in ('insert', 'update', 'delete'):
                s.begin(self.conn)
            elif st['kind'] in ('create', 'drop', 'alter'):
                s.commit(self.conn)
            self.result = None
            s.db.vars = self.conn.vars
            self.result = s.db.execute(sql)
        faulty(self.conn, 'execute', sql, act)

    def executemany(self, sql, rows):
        s = self.conn.server
        if self.conn.closed:
            raise driver_error("MySQL Connection not available.")
        if s.fail_next is not None:
            e = s.fail_next(sql)
            if e is not None:
                raise e
        m = re.match(r'insert into (\w+) values ?\(%s(?:, ?%s)*\)$', sql)
        if not m:
            raise SqlError("unexpected statement %s" % sql)

        def act():
            s.others(self.conn)
            s.begin(self.conn)
            t = s.db.table(m.group(1))
            for r in rows:
                if len(r) != sql.count('%s') or len(r) != len(t.cols):
                    raise SqlError("Not all parameters were used")
                t.rows.append({c: s.db.store(t.types[c], v) for c, v in zip(t.cols, r)})
        faulty(self.conn, 'executemany', sql, act)

    def fetchall(self):
        if self.result is None:
            raise SqlError("No result set to fetch from.")
        r, self.result = self.result, None
        return [tuple(x) for x in r]

    def fetchone(self):
        if self.result is None:
            raise SqlError("No result set to fetch from.")
        return tuple(self.result.pop(0)) if self.result else None

    def close(self):
        pass


def meta_sql():
    """the table of the metadata, as the repository's schema declares it"""
    text = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'data', 'schema-mysql.sql'), encoding='utf-8').read()
    m = re.search(r'CREATE TABLE\s+(?:IF NOT EXISTS )?p_db_meta \((.*?)\);', text, re.S | re.I)
    return 'create table p_db_meta (%s)' % ' '.join(m.group(1).split()).lower()


def connect(*a, **kw):
    name = kw.get('db') or kw.get('database')
    key = (kw.get('host'), str(kw.get('port')), name)
    if name == G.meta_name:
        key = 'meta'
    if key not in G.servers:
        G.servers[key] = Server(name)
        if key == 'meta':
            G.servers[key].db.execute(meta_sql())
    G.connects.append(dict(kw))
    f = G.fault(G.servers[key], 'connect', '') if G.fault else None
    if f is not None:
        raise f[1]
    return Conn(G.servers[key], kw)


# ------------------------------------------------------------------ cipher stand-ins (symbolic runs only)

class StubOPE:
    """an order-preserving injection per key: fresh images constrained pairwise (contract established by C01/C02)"""

    def __init__(self, key, *a, **k):
        self.key = key

    def encrypt(self, x):
        ctx = symex.active()
        if not isinstance(x, (int, SymInt)):
            raise ValueError('Plaintext must be int')
        if not sx_and(x >= -2 ** 63, x <= 2 ** 63 - 1):
            from scheduler.crypto.ope.errors import OutOfRangeError
            raise OutOfRangeError()
        tab = ctx.data.setdefault('ope', [])
        xe = z3.simplify(zi(x))
        for k, x2, e2 in tab:
            if k == self.key and x2.eq(xe):
                return mkint(e2)
        e = z3.Int('ope%d' % len(tab))
        ctx.add(z3.And(e >= -2 ** 63, e < 2 ** 63))
        for k, x2, e2 in tab:
            if k == self.key:
                ctx.add(z3.And((xe < x2) == (e < e2), (xe == x2) == (e == e2)))
        tab.append((self.key, xe, e))
        return mkint(e)

    def decrypt(self, c):
        ctx = symex.active()
        tab = ctx.data.setdefault('ope', [])
        ce = z3.simplify(zi(c))
        for k, x2, e2 in tab:
            if k == self.key and e2.eq(ce):
                return mkint(x2)
        for k, x2, e2 in tab:
            if k == self.key and ctx.branch(e2 == ce):
                return mkint(x2)
        from scheduler.crypto.ope.errors import InvalidCiphertextError
        raise InvalidCiphertextError('Invalid ciphertext')


class EncAtom(V.Atom):
    """AES ciphertext text of `src` under `key` (contract established by C03/C04: deterministic, injective,
    decryptable; text of another origin never equals it)"""
    unforgeable = True
    charset = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')

    def __init__(self, key, src):
        self.key, self.src = key, src

    def same(self, o):
        return sx_and(self.key == o.key, self.src == o.src) if type(o) is EncAtom else False

    def length(self):
        b = self.blocks()
        return (b * 16 + 2) // 3 * 4 - (3 - b % 3) % 3          # without the '=' padding

    def blocks(self):
        n = len(self.src.encode('utf8')) if isinstance(self.src, str) else utf8_length(self.src)
        return (n + 15) // 16

    def __repr__(self):
        return 'E(%r)' % (self.src,)


def utf8_length(s):
    n = 0
    for x in s.items:
        if isinstance(x, V.Atom):
            n = n + x.length()
        else:
            n = n + len(V.utf8_items(x))
    return n


def aes_encrypt(self, raw):
    if not isinstance(raw, (str, SymStr)):
        raise AttributeError("'%s' object has no attribute 'encode'" % type(raw).__name__)
    if raw == '':
        return ''
    a = EncAtom(self.key, raw)
    b = a.blocks()
    if isinstance(b, SymInt):
        b = symex.active().concretize(b.e, 8)
    return SymStr([a] + [0x3d] * ((3 - b % 3) % 3))


def aes_decrypt(self, enc):
    if enc == '':
        return ''
    if isinstance(enc, SymStr) and isinstance(enc.items[0], EncAtom):
        a = enc.items[0]
        b = a.blocks()
        if type(a) is EncAtom and a.key == self.key and all(x == 0x3d for x in enc.items[1:]) and len(enc.items) - 1 == (3 - b % 3) % 3:
            return a.src
    raise ValueError("not a ciphertext under this key: %r" % (enc,))


class Sm4Atom(EncAtom):
    """SM4 ciphertext text (contract established by C04)"""
    charset = frozenset('0123456789abcdef')

    def same(self, o):
        return sx_and(self.key == o.key, self.src == o.src) if isinstance(o, Sm4Atom) else False

    def length(self):
        n = len(self.src.encode('utf8')) if isinstance(self.src, str) else utf8_length(self.src)
        return (n // 16 + 1) * 32

    def __repr__(self):
        return 'SM4(%r)' % (self.src,)


def sm4_encrypt(self, raw):
    if not isinstance(raw, (str, SymStr)):
        from symex.instrument import to_text
        raw = to_text(raw) if V.is_sym(raw) else str(raw)
    return SymStr([Sm4Atom(self.key, raw)])


def sm4_decrypt(self, enc):
    if isinstance(enc, SymStr) and len(enc.items) == 1 and isinstance(enc.items[0], Sm4Atom):
        a = enc.items[0]
        if a.key == self.key:
            return a.src
    raise ValueError("not a ciphertext under this key: %r" % (enc,))


# ------------------------------------------------------------------ literal placeholders

class PH:
    table = {}          # placeholder text -> value

    @classmethod
    def reset(cls):
        cls.table = {}


def subst(j, table):
    if isinstance(j, dict):
        return {k: subst(v, table) for k, v in j.items()}
    if isinstance(j, list):
        return [subst(v, table) for v in j]
    if isinstance(j, (int, float)) and not isinstance(j, bool):
        t = table.get(repr(j))
        return t if t is not None else j
    if isinstance(j, str) and 'qz' in j:
        items = []
        for part in re.split(r'(qz\d+qz)', j):
            if part in table:
                s = table[part]
                items += list(s.items) if isinstance(s, SymStr) else [ord(c) for c in s]
            else:
                items += [ord(c) for c in part]
        return SymStr.make(items)
    return j


_PCACHE = {}


def flip(j, phs):
    """the parse of the text with the numbers `phs` negated, as it would look for the positive numbers"""
    if isinstance(j, dict):
        return {k: flip(v, phs) for k, v in j.items()}
    if isinstance(j, list):
        return [flip(v, phs) for v in j]
    if isinstance(j, (int, float)) and not isinstance(j, bool) and j < 0 and repr(-j) in phs:
        return -j
    return j


def wrap_parse(real):
    """parses the text with marker constants; where the sign of a constant changes the shape of the result, forks on it"""
    def variant(sql, phs):
        key = (real, sql, phs)
        if key not in _PCACHE:
            t = sql
            for p in phs:
                t = t.replace(p, '-' + p)
            try:
                _PCACHE[key] = real(t)
            except Exception as e:      # noqa
                _PCACHE[key] = e
        return _PCACHE[key]

    def differs(sql, phs):
        key = (real, sql, 'signs')
        if key not in _PCACHE:
            base = variant(sql, ())
            out = set()
            for k in range(1, len(phs) + 1) if len(phs) <= 4 else (1, len(phs)):
                for sub in itertools.combinations(phs, k):
                    v = variant(sql, sub)
                    if isinstance(v, Exception) != isinstance(base, Exception) or \
                            not isinstance(v, Exception) and flip(v, set(sub)) != base:
                        out |= set(sub)
            _PCACHE[key] = tuple(p for p in phs if p in out)
        return _PCACHE[key]

    def parse(sql, *a, **k):
        if not isinstance(sql, str):
            raise symex.Unsupported("parsing symbolic SQL text")
        phs = tuple(p for p, v in PH.table.items() if not p.startswith('qz') and re.search(r'(?<![\d.])%s(?![\d.])' % re.escape(p), sql))
        table = dict(PH.table)
        neg = []
        for p in differs(sql, phs) if phs else ():
            if bool(PH.table[p] < 0):
                neg.append(p)
                table[p], table['-' + p] = -PH.table[p], PH.table[p]
        r = variant(sql, tuple(neg))
        if isinstance(r, Exception):
            raise r
        return subst(copy.deepcopy(r), table)
    return parse


# ------------------------------------------------------------------ install

def install(symbolic):
    SYM[0] = symbolic
    cryptostub.install()
    pd = types.ModuleType('pandas')
    sys.modules.setdefault('pandas', pd)
    import yaml
    cfg = yaml.full_load(open('config.yaml', encoding='utf-8'))
    G.meta_name = cfg['meta']['mysql']['db']
    G.servers, G.connects, G.sent, G.fault = {}, [], [], None
    import mysql.connector
    mysql.connector.connect = connect
    import logging
    if not os.environ.get("VERIF_LOG"):
        logging.disable(logging.CRITICAL)
    import scheduler.backend.execution_context as ec
    import scheduler.schema.metadata as md
    import scheduler.handers.rewrite_hander as rh
    import scheduler.handers.table as tb
    import scheduler.backend.executors.remote_executor as rx
    import scheduler.crypto.encrypt as enc
    import scheduler.handers.decrypt_handler as dh
    import controller.rewriter as cr
    import sql_parsing
    G.ec, G.md, G.rh, G.tb, G.rx, G.enc, G.dh, G.cr, G.sp = ec, md, rh, tb, rx, enc, dh, cr, sql_parsing
    sql_parsing.parse_mysql("select a from t")          # builds the grammar once, before forking
    if symbolic:
        real = sql_parsing.parse_mysql
        wrapped = wrap_parse(real)
        for n, m in list(sys.modules.items()):
            if n.split('.')[0] in ('scheduler', 'controller', 'sql_parsing'):
                for k, v in list(vars(m).items()):
                    if v is real:
                        setattr(m, k, wrapped)
        enc.OPE = StubOPE
        enc.AESCipher.encrypt = aes_encrypt
        enc.AESCipher.decrypt = aes_decrypt
        enc.SM4CipherBytes.encrypt = sm4_encrypt
        enc.SM4CipherBytes.decrypt = sm4_decrypt


class Clock:
    """distinct, reproducible time stamps"""

    def __init__(self):
        self.n = 0

    def perf_counter(self):
        self.n += 1
        return self.n / 8.0

    def time(self):
        return 1700000000.0 + self.n

    def sleep(self, s):
        pass


def start(ctx):
    cryptostub.start(ctx)
    PH.reset()
    G.servers.clear()
    G.fault = None
    del G.connects[:]
    del G.sent[:]
    D = G.md.Delta
    setattr(D, '_Delta__instance', None)
    D.meta = None
    D.table_json = None
    G.md.db_conn = connect(db=G.meta_name)
    D.db_conn = None
    G.rx.connection_pool.clear()
    G.ec.id_sql_map.clear()
    random.seed(7)
    G.tb.time = Clock()


def restart_process():
    """what a new server process would see: nothing in memory, metadata from its database"""
    D = G.md.Delta
    setattr(D, '_Delta__instance', None)
    if 'meta' in D.__dict__:
        D.meta = None
    D.table_json = None
    G.md.db_conn = connect(db=G.meta_name)
    D.db_conn = None
    G.rx.connection_pool.clear()


KEY = 'abcdefghijklmnopqrstuvwxyz@#$%^&*()points'


def spec(key=KEY, fuzzy=False, **k):
    return dict(key=key, fuzzy=fuzzy, **k)


class World:
    def __init__(self, ctx, db='points'):
        start(ctx)
        self.ctx = ctx
        self.plain = MiniDB()
        self.info = dict(host='127.0.0.1', port=3306, db=db, user='root', password='pw')
        self.n = 0
        self.plain_log = []

    @property
    def server(self):
        return G.servers[(self.info['host'], str(self.info['port']), self.info['db'])]

    @property
    def meta(self):
        return G.md.Delta().meta.get(self.info['db'], {})

    # rendering
    def render(self, template, lits):
        """(text handed to EulerDB, text for the oracle)"""
        target, rope = '', []
        for part in re.split(r'(\{\w+\})', template):
            if re.match(r'\{\w+\}$', part):
                v = lits[part[1:-1]]
                if V.is_sym(v):
                    self.n += 1
                    if isinstance(v, SymInt):
                        ph = str(770000000 + self.n)
                        rope.append(NumAtom(v))
                    elif isinstance(v, SymFloat):
                        ph = repr(770000000.5 + self.n)
                        rope.append(FloatAtom(v))
                    else:
                        ph = 'qz%dqz' % (1000 + self.n)
                        rope += v.items
                    PH.table[ph] = v
                    target += ph
                else:
                    t = v if isinstance(v, str) else repr(v)
                    target += t
                    rope += [ord(c) for c in t]
            else:
                target += part
                rope += [ord(c) for c in part]
        return target, SymStr.make(rope)

    def invoke(self, target, enc_cols=None, columns_info=False, **extra):
        info = dict(self.info)
        info.update(extra)
        return G.ec.invoke(info, target, enc_cols, columns_info)

    def create(self, sql, enc_cols):
        self.plain.execute(re.sub(r'(?i)^create table (if not exists )?', 'create table ', sql))
        # metadata lookups need a parsed CREATE: ENGINE / COMMENT suffixes are passed through unchanged
        self.invoke(sql, enc_cols)
        self.retag()

    def retag(self):
        tags = {}
        for t, m in self.meta.items():
            for c, info in m['columns'].items():
                for kind, name in info.get('enc-cols', {}).items():
                    tags[(m['anonymous'], name)] = {'order-preserving': 'order-cipher', 'arithmetic': 'number-cipher'}.get(kind, 'text-cipher')
        self.server.db.tags = tags

    def both(self, template, enc_only=False, **lits):
        """run on both sides: (plaintext result, decrypted result)"""
        target, text = self.render(template, lits)
        p = self.plain.execute(text)
        r = self.invoke(target)
        return p, r

    def run(self, template, **lits):
        target, _ = self.render(template, lits)
        return self.invoke(target)

    def same(self, p, r, what='result differs from the plaintext database', ordered=False):
        ctx = self.ctx
        p, r = list(p or []), list(r or [])
        ctx.note('expected', p)
        ctx.note('got', r)
        ctx.check(len(p) == len(r), what + ' (number of rows)')
        for a, b in zip(p, r):
            ctx.check(len(a) == len(b), what + ' (number of columns)')
            for x, y in zip(a, b):
                if x is None or y is None:
                    ctx.check(x is None and y is None, what + ' (NULL)')
                elif minisql.is_text(x) != minisql.is_text(y):
                    ctx.check(False, what + ' (type of a value)')
                else:
                    ctx.check(x == y, what)

    def query(self, template, what='result differs from the plaintext database', **lits):
        p, r = self.both(template, **lits)
        self.same(p, r, what)
        return p

    def contents(self, table, what='table contents differ from the plaintext database'):
        self.query('select * from ' + table, what)


WORD = [(0x61, 0x7a)]


def num(ctx, name, lo=-2 ** 31, hi=2 ** 31 - 1):
    v = ctx.int(name, lo, hi)
    ctx.note(name, v)
    return v


def word(ctx, name, n, alphabet=WORD):
    v = ctx.str(name, n, alphabet) if n else ''
    ctx.note(name, v)
    return v


def eighth(ctx, name, lim=64):
    """a float that is a multiple of 1/8"""
    k = ctx.int(name + '.k', -lim, lim)
    if ctx.symbolic:
        v = SymFloat(z3.ToReal(k.e) / 8) if isinstance(k, SymInt) else k / 8
    else:
        v = k / 8
    ctx.note(name, v)
    return v
