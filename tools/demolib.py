"""EulerDB end to end without a MySQL server: mysql.connector is replaced by sqlite3 in memory.
Everything is created in a scratch directory that is removed at exit."""
import atexit
import os
import re
import shutil
import sqlite3
import sys
import tempfile
import types

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, SCRATCH, True)
shutil.copy(os.path.join(REPO, 'config.yaml'), SCRATCH)
os.chdir(SCRATCH)

DBS, LOG, CONNECTS = {}, [], []
FAIL = [None]           # callable(sql) -> exception or None
META_DB = 'eulerdb_schema'


class Error(Exception):
    pass


class Cursor:
    def __init__(self, conn):
        self.connection = conn
        self.c = conn.db.cursor()

    def execute(self, sql, params=()):
        if self.connection.closed:
            raise Error('MySQL Connection not available')
        LOG.append((self.connection.kw.get('db') or self.connection.kw.get('database'), sql))
        if FAIL[0]:
            e = FAIL[0](sql)
            if e:
                raise e
        try:
            self.c.execute(sql.replace('%s', '?') if params else sql, params)
        except sqlite3.Error as e:
            raise Error('%s in %s' % (e, sql))

    def executemany(self, sql, rows):
        if FAIL[0]:
            e = FAIL[0](sql)
            if e:
                raise e
        self.c.executemany(sql.replace('%s', '?'), rows)

    def fetchall(self):
        return self.c.fetchall()

    def fetchone(self):
        return self.c.fetchone()

    def close(self):
        self.c.close()


class Conn:
    def __init__(self, kw):
        self.kw = kw
        name = (kw.get('host'), str(kw.get('port')), kw.get('db') or kw.get('database'))
        if name[2] == META_DB:
            name = META_DB
        if name not in DBS:
            DBS[name] = sqlite3.connect(':memory:', check_same_thread=False, isolation_level='DEFERRED')
            if name == META_DB:
                DBS[name].execute('create table p_db_meta (database_name, db_type, table_name, table_anonymous, col_info, remark)')
        self.db = DBS[name]
        self.closed = False

    def cursor(self, *a, **k):
        return Cursor(self)

    def commit(self):
        self.db.commit()

    def rollback(self):
        self.db.rollback()

    def ping(self, *a, **k):
        if self.closed:
            raise Error('closed')

    def close(self):
        self.closed = True
        self.db.rollback()


def connect(*a, **kw):
    CONNECTS.append(kw)
    return Conn(kw)


sys.modules['pandas'] = types.ModuleType('pandas')
import logging
logging.disable(logging.CRITICAL)
import mysql.connector          # noqa
mysql.connector.connect = connect
import scheduler.backend.execution_context as ec     # noqa
import scheduler.backend.executors.remote_executor as rx     # noqa
import scheduler.schema.metadata as md               # noqa

INFO = dict(host='127.0.0.1', port=3306, db='points', user='root', password='pw')
KEY = 'abcdefghijklmnopqrstuvwxyz@#$%^&*()points'


def enc(**cols):
    """enc(a=None, s='fuzzy')"""
    out = {}
    for c, o in cols.items():
        d = dict(key=KEY, fuzzy=False)
        if isinstance(o, str):
            d[o] = True
        elif isinstance(o, dict):
            d.update(o)
        out[c] = d
    return out


def run(sql, enc_cols=None, **info):
    sys.stdout, old = open(os.devnull, 'w'), sys.stdout
    try:
        return ec.invoke(dict(INFO, **info), sql, enc_cols)
    finally:
        sys.stdout = old


def restart():
    """a new server process: nothing in memory, metadata read from its database again"""
    setattr(md.Delta, '_Delta__instance', None)
    md.Delta.meta = None
    md.Delta.table_json = None
    md.db_conn = connect(db=META_DB)
    rx.connection_pool.clear()


def meta(db='points'):
    return md.Delta().meta[db]


def db(name='points'):
    return DBS[('127.0.0.1', '3306', name)]


def expect(got, want, what=''):
    if got != want:
        print('FAILED %s: got %r, expected %r' % (what, got, want))
        sys.exit(1)
