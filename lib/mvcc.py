"""The MySQL stand-in for requests at the same time: rows that are not committed are seen by their own connection only, a transaction
reads the rows as of its first SELECT, a change waits for the changes of others, DDL for every open transaction on its table.
mysql.connector refuses a statement while another result of the connection is unread."""
import re

import eu
import minisql
from minisql import SqlError
from sched import Kill

SCHED = [None]


class GLock:
    """threading.Lock / RLock / Condition bound to the scheduler that runs, if any"""

    def __init__(self, lock=None, reentrant=True):
        self.owner, self.depth, self.reentrant = None, 0, reentrant
        self.waiters = []

    def _me(self):
        s = SCHED[0]
        return s, (s.me() if s else None)

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if me is None:
            return True
        if self.owner is me and self.reentrant:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            s.block(self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        s, me = self._me()
        if me is None:
            return
        self.depth -= 1
        if not self.depth:
            self._free(s)

    def _free(self, s):
        self.owner = None
        for t in s.tasks:
            if t.blocked is self:
                t.blocked = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        s, me = self._me()
        if me is None:
            raise Kill()
        depth, self.depth = self.depth, 0
        ticket = [me]
        self.waiters.append(ticket)
        self._free(s)
        s.block(ticket)
        while self.owner is not None:
            s.block(self)
        self.owner, self.depth = me, depth
        return True

    def notify(self, n=1):
        for ticket in self.waiters[:n]:
            self.waiters.remove(ticket)
            ticket[0].blocked = None

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


def step():
    if SCHED[0] is not None:
        SCHED[0].step()


def wait(cond, what):
    """blocks while cond(); whoever ends a transaction wakes the waiting"""
    while cond():
        s = SCHED[0]
        if s is None or s.me() is None:
            raise SqlError("Lock wait timeout exceeded")
        s.block(what)


def wake(what):
    s = SCHED[0]
    if s is not None:
        for t in s.tasks:
            if t.blocked is what:
                t.blocked = None


class Server(eu.Server):
    def __init__(self, name):
        super().__init__(name)
        self.users = None            # {user: password}, None: anyone

    def others(self, conn):
        pass

    def tables(self, st):
        """the tables a statement names"""
        st = st if isinstance(st, str) else ''.join(chr(i) if isinstance(i, int) else '?' for i in st.items)
        return [n for n in self.db.tables if re.search(r'\b%s\b' % re.escape(n), st)]

    def end(self, conn):
        conn.snapshot = None
        wake(self)

    def commit(self, conn):
        if self.open is not None and self.open[0] is conn:
            self.open = None
        self.end(conn)

    def rollback(self, conn):
        super().rollback(conn)
        self.end(conn)


class Conn(eu.Conn):
    def __init__(self, server, kw):
        super().__init__(server, kw)
        self.snapshot, self.read = None, set()
        self.unread = None

    def cursor(self, *a, **k):
        step()
        if self.closed:
            raise eu.driver_error("MySQL Connection not available.")
        return Cursor(self)

    def idle(self, cur=None):
        if self.unread is not None and self.unread is not cur:
            raise error("Unread result found")

    def commit(self):
        step()
        self.idle()
        super().commit()
        step()

    def rollback(self):
        step()
        if self.unread is not None:
            raise error("Unread result found")
        super().rollback()
        step()

    def ping(self, *a, **k):
        step()
        super().ping()

    def close(self):
        step()
        self.unread = None
        super().close()


def error(msg):
    import mysql.connector.errors
    return mysql.connector.errors.InternalError(msg)


class Cursor(eu.Cursor):
    def execute(self, sql, params=None):
        step()
        self.conn.idle(self)
        if self.conn.unread is self and self.result:
            raise error("Unread result found")
        self.conn.unread = None
        if not sql:
            return
        if self.conn.closed:
            raise eu.driver_error("MySQL Connection not available.")
        s, c = self.conn.server, self.conn
        if params is not None:
            sql = bound(sql, params)
        eu.G.sent.append((s.name, sql))
        st = minisql.parse(sql)
        kind = st['kind']
        self.result = None
        if kind in ('insert', 'update', 'delete'):
            wait(lambda: s.open is not None and s.open[0] is not c, s)
            s.begin(c)
        elif kind in ('create', 'drop', 'alter'):
            s.commit(c)
            names = set(s.tables(sql))
            wait(lambda: any(o is not c and not o.closed and ((s.open is not None and s.open[0] is o) or (o.snapshot is not None and names & o.read)) for o in s.conns), s)
        s.db.vars = c.vars
        self.result = self.run(s, c, kind, sql)
        if self.result is not None:
            c.unread = self

    def run(self, s, c, kind, sql):
        if kind in ('insert', 'update', 'delete', 'create', 'drop', 'alter'):
            return s.db.execute(sql)
        # what others have not committed is not seen; a transaction reads as of its first SELECT
        now = {n: (t, t.rows) for n, t in s.db.tables.items()}
        committed = {n: s.open[1].get(n, t.rows) if s.open is not None and s.open[0] is not c else t.rows for n, (t, _) in now.items()}
        if c.snapshot is None:
            c.snapshot = {n: (now[n][0], [dict(r) for r in rows]) for n, rows in committed.items()}
            c.read = set()
        named = set(s.tables(sql))
        mine = s.open is not None and s.open[0] is c
        for n in named:
            if n in c.snapshot and c.snapshot[n][0] is not now[n][0]:
                raise SqlError("Table definition has changed, please retry transaction")
        c.read |= named
        try:
            if not mine:
                for n in named:
                    if n in c.snapshot:
                        now[n][0].rows = c.snapshot[n][1]
                    else:
                        now[n][0].rows = committed[n]
            return s.db.execute(sql)
        finally:
            for n, (t, rows) in now.items():
                t.rows = rows

    def executemany(self, sql, rows):
        step()
        self.conn.idle(self)
        s, c = self.conn.server, self.conn
        wait(lambda: s.open is not None and s.open[0] is not c, s)
        s.begin(c)
        super().executemany(sql, rows)

    def fetchall(self):
        step()
        r = super().fetchall()
        self.conn.unread = None
        return r

    def fetchone(self):
        step()
        r = super().fetchone()
        if not self.result:
            self.conn.unread = None
        return r

    def close(self):
        if self.conn.unread is self:
            self.conn.unread = None


def bound(sql, params):
    parts = sql.split('%s')
    return ''.join(a + ("'" + b.replace('\\', '\\\\').replace("'", "''") + "'") for a, b in zip(parts, params)) + parts[-1]


PASSWORDS = {}          # (host, port, database) -> {user: password}


def connect(*a, **kw):
    step()
    name = kw.get('db') or kw.get('database')
    key = (kw.get('host'), str(kw.get('port')), name)
    if name == eu.G.meta_name:
        key = 'meta'
    if key in PASSWORDS:
        import mysql.connector.errors
        user, pw = kw.get('user'), kw.get('passwd', kw.get('password'))
        if PASSWORDS[key].get(user) != pw:
            raise mysql.connector.errors.ProgrammingError("Access denied for user '%s'" % user)
    if key not in eu.G.servers:
        eu.G.servers[key] = Server(name)
        if key == 'meta':
            eu.G.servers[key].db.execute(eu.meta_sql())
    eu.G.connects.append(dict(kw))
    c = Conn(eu.G.servers[key], kw)
    return c
