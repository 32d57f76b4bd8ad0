"""R11: requests at the same time behave as one after another, each on the database and with the rights that it names."""
import gc
import itertools
import re
import sys
import threading
import types

import eu
import minisql
import mvcc
import r_common as rc
import symex
from r_common import K1, K2, spec
from runner import Scenario
from sched import Scheduler
from symex import sx_and, sx_or

ASSUMPTIONS = rc.ASSUMPTIONS + [
    'a request is interrupted where it calls the driver (connect, cursor, execute, fetch, commit, rollback, ping, close), at most as often as a scenario says besides the places where it has to wait',
    'MySQL as in lib/mvcc.py: REPEATABLE READ, a change waits for the uncommitted changes of others (of the whole database), DDL for open transactions on its table; mysql.connector refuses a statement while a result is unread',
]
WALL = {'quick': 300, 'thorough': 3000}
MUST_COVER = ('interrupted', 'answered', 'refused', 'other order')


def setup(symbolic):
    import yaml, decimal, json, logging, sqlite3, mysql.connector, concurrent.futures       # noqa: modules that keep the real locks
    fake = types.ModuleType('threading')
    vars(fake).update({k: v for k, v in vars(threading).items() if not k.startswith('__')})
    fake.Lock = lambda: mvcc.GLock(reentrant=False)
    fake.RLock = lambda: mvcc.GLock()
    fake.Condition = lambda lock=None: mvcc.GLock(lock)
    eu.connect, eu.Conn, eu.Server, eu.Cursor = mvcc.connect, mvcc.Conn, mvcc.Server, mvcc.Cursor
    sys.modules['threading'] = fake
    try:
        rc.setup(symbolic)
        import dbutils.pooled_db    # noqa
    finally:
        sys.modules['threading'] = threading


BASE = 'create table t (id int, a int, n int, s varchar(20))'
ENC = {'a': spec(), 's': spec(key=K2, fuzzy=True)}
HOMO = [787659527, 1023624989]
SUMS = {'a': dict(spec(), arithmetic=True, homomorphic_key=HOMO), 's': spec(key=K2, fuzzy=True)}
OTHER = {'n': spec(key=K2), 's': spec(), 'id': spec(key='third')}


def num(ctx, name):
    return rc.num(ctx, name, 10, 99)


def start(ctx, rows, enc=ENC, unique=False):
    mvcc.SCHED[0] = None
    mvcc.PASSWORDS.clear()
    w = eu.World(ctx)
    history = [BASE.replace('id int', 'id int primary key') if unique else BASE]
    w.create(history[0], enc)
    for i in range(rows):
        target, text = w.render("insert into t (id, a, n, s) values (%d, {a}, {n}, '{s}')" % (i + 1), dict(a=num(ctx, 'a%d' % i), n=num(ctx, 'n%d' % i), s=rc.word(ctx, 's%d' % i, 2)))
        w.invoke(target)
        history.append(text)
    return w, history


class Request:
    def __init__(self, w, tpl, enc, L):
        self.target, self.text = w.render(tpl, L)
        self.tpl, self.enc = tpl, enc
        self.began = self.ended = self.result = self.error = None


def lits(ctx, tpl, pre):
    out = {}
    for n in set(marks(tpl)):
        out[n] = rc.word(ctx, pre + n, 2) if n in 'xy' else num(ctx, pre + n)
    return out


def marks(tpl):
    return re.findall(r'\{(\w+)\}', tpl)


def equal(p, r):
    """condition that two results are the same"""
    if p[0] != r[0]:
        return False
    p, r = list(p[1] or []), list(r[1] or [])
    if len(p) != len(r):
        return False
    conds = []
    for x, y in zip(p, r):
        if len(x) != len(y):
            return False
        for a, b in zip(x, y):
            if a is None or b is None:
                if not (a is None and b is None):
                    return False
            elif minisql.is_text(a) != minisql.is_text(b):
                return False
            else:
                conds.append(a == b)
    return sx_and(*conds) if conds else True


def together(ctx, clients, rows=1, budget=1, steps=60, enc=ENC, cold=False, unique=False, tables=('t',)):
    w, history = start(ctx, rows, enc, unique)
    reqs = []
    for i, c in enumerate(clients):
        mine = []
        for k, st in enumerate(c):
            tpl, e = (st, None) if isinstance(st, str) else st
            mine.append(Request(w, tpl, e, lits(ctx, tpl, 'c%d%d' % (i, k))))
        reqs.append(mine)
    if cold:
        eu.restart_process()
    clock = itertools.count()

    def client(mine):
        for r in mine:
            r.began = next(clock)
            try:
                r.result = ('rows', w.invoke(r.target, r.enc) if r.enc else w.invoke(r.target))
                ctx.cover('answered')
            except Exception as e:      # noqa
                rc.control(e)
                r.result = ('refused', None)
                r.error = '%s: %s' % (type(e).__name__, e) if not symex_args(e) else type(e).__name__
                ctx.cover('refused')
            if not r.target.startswith('select') and r.result[0] == 'rows':
                r.result = ('rows', [])
            r.ended = next(clock)

    gc.collect()            # what earlier runs left must not be finalized during this one
    gc.disable()
    s = Scheduler(ctx, budget, steps)
    mvcc.SCHED[0] = s
    try:
        for i, mine in enumerate(reqs):
            s.spawn('client%d' % i, lambda mine=mine: client(mine))
        stuck = s.run()
    finally:
        mvcc.SCHED[0] = None
        gc.enable()
    ctx.note('schedule', ' '.join(s.trace))
    if len(s.trace) > len(reqs):
        ctx.cover('interrupted')
    ctx.check(not stuck, 'a request waits for ever')
    flat = [r for mine in reqs for r in mine]
    for r in flat:
        ctx.note('result of ' + r.tpl, r.result if r.result[0] == 'rows' else r.error)

    def contents():
        w.retag()
        out = []
        for t in tables:
            try:
                out.append(('rows', w.invoke('select * from ' + t)))
            except Exception as e:      # noqa
                rc.control(e)
                out.append(('refused', None))
        return out
    now = contents()
    for t, c in zip(tables, now):
        ctx.note('contents of ' + t, c)
    eu.restart_process()
    later = contents()
    ok = []
    for order in orders(reqs):
        db = minisql.MiniDB()
        for text in history:
            db.execute(text)
        conds = []
        for r in order:
            conds.append(equal(outcome(db, r.text), r.result))
            if conds[-1] is False:
                break
        else:
            for t, a, b in zip(tables, now, later):
                p = outcome(db, 'select * from ' + t)
                conds += [equal(p, a), equal(p, b)]
        if any(c is False for c in conds):
            continue
        if order != flat:
            ctx.cover('other order')
        ok.append(sx_and(*conds) if conds else True)
    ctx.check(bool(ok), 'requests at the same time have results that no order of them explains')
    ctx.check(sx_or(*ok), 'requests at the same time have results that no order of them explains')


def symex_args(e):
    from symex import values as V
    return any(V.is_sym(a) for a in e.args)


def outcome(db, text):
    try:
        return ('rows', db.execute(text) or [])
    except minisql.SqlError:
        return ('refused', None)


def orders(reqs):
    """all orders in which each client's requests follow one another, and a request that ended before another began comes first"""
    flat = [r for mine in reqs for r in mine]
    for p in itertools.permutations(flat):
        if all(a.ended > b.began for i, b in enumerate(p) for a in p[i + 1:]) and all(p.index(x) < p.index(y) for mine in reqs for x, y in zip(mine, mine[1:])):
            yield list(p)


# ------------------------------------------------------------------ who is asked

SESSIONS = {
    'databases and users': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.1', 3306, 'pointsr', 'oot', 'pw'), ('127.0.0.1', 3306, 'point', 'sroot', 'pw')],
    'hosts and ports': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.13', 306, 'points2', 'root', 'pw'), ('127.0.0.13', 306, 'points', 'root', 'pw')],
    'ports and databases': [('h', 330, '6points', 'root', 'pw'), ('h', 3306, 'points', 'root', 'pw'), ('h', 33, '06points', 'root', 'pw')],
    'users and passwords': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.1', 3306, 'points', 'eve', 'pw2'), ('127.0.0.1', 3306, 'points', 'rootp', 'w')],
}


def sessions(ctx, infos, n):
    """each request reaches exactly the database it names, with the user and the password it names"""
    mvcc.SCHED[0] = None
    mvcc.PASSWORDS.clear()
    w = eu.World(ctx)
    for h, p, d, u, pw in infos:
        mvcc.PASSWORDS.setdefault((h, str(p), d), {})[u] = pw
    for h, p, d, u, pw in infos:
        eu.G.servers.setdefault((h, str(p), d), mvcc.Server(d))
    w.info = dict(zip(('host', 'port', 'db', 'user', 'password'), infos[0]))
    w.create(BASE, ENC)
    a = rc.num(ctx, 'a')
    target, text = w.render('insert into t (id, a) values (1, {a})', dict(a=a))
    w.invoke(target)
    for i in range(n):
        k = ctx.int('session%d' % i, 0, len(infos) - 1)
        info = infos[-1]
        for j, c in enumerate(infos[:-1]):
            if bool(k == j):
                info = c
                break
        wrong = bool(ctx.flag('wrong password %d' % i))
        info = dict(zip(('host', 'port', 'db', 'user', 'password'), info))
        if wrong:
            info['password'] += 'x'
        if bool(ctx.flag('port as text %d' % i)):
            info['port'] = str(info['port'])
        here = (info['host'], str(info['port']), info['db'])
        before = {key: len(s.db.log) for key, s in eu.G.servers.items()}
        try:
            r = eu.G.ec.invoke(dict(info), 'select a from t')
            refused = False
        except Exception as e:      # noqa
            rc.control(e)
            refused = True
            ctx.cover('refused')
        for key, s in eu.G.servers.items():
            if key not in ('meta', here):
                ctx.check(len(s.db.log) == before.get(key, 0), 'a request reaches another database than it names')
        if wrong:
            ctx.check(refused, 'a request with a wrong password is answered')
        elif here == (infos[0][0], str(infos[0][1]), infos[0][2]):
            ctx.check(not refused, 'a request with the right password is refused')
            ctx.check(equal(('rows', [(a,)]), ('rows', r)), 'the answer differs from the plaintext database')
            ctx.cover('answered')


PLACES = {
    'on one server': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.1', 3306, 'other', 'root', 'pw')],
    'on two servers': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.2', 3306, 'other', 'root', 'pw')],
    'of the same name on two servers': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.2', 3306, 'points', 'root', 'pw')],
    'of the same name on two ports': [('127.0.0.1', 3306, 'points', 'root', 'pw'), ('127.0.0.1', 3307, 'points', 'root', 'pw')],
}
STEPS = ["insert into t (id, a, s) values (1, {i}, '{x}')", 'update t set a = {i}', 'select a, s from t', 'drop table t']


def databases(ctx, infos, n, restart):
    """tables of the same name in several databases are different tables"""
    mvcc.SCHED[0] = None
    mvcc.PASSWORDS.clear()
    w = eu.World(ctx)
    for h, p, d, u, pw in infos:
        eu.G.servers.setdefault((h, str(p), d), mvcc.Server(d))
    if len({d for h, p, d, u, pw in infos}) < len(infos):
        ctx.known_region('K07')
    twins = []
    for i, info in enumerate(infos):
        w.info = dict(zip(('host', 'port', 'db', 'user', 'password'), info))
        twins.append(minisql.MiniDB())
        twins[-1].execute(BASE)
        w.invoke(BASE, [ENC, OTHER][i])
    for k in range(n):
        at = ctx.choice('database%d' % k, range(len(infos)))
        tpl = ctx.choice('statement%d' % k, STEPS)
        w.info = dict(zip(('host', 'port', 'db', 'user', 'password'), infos[at]))
        if restart and ctx.choice('restart%d' % k, [False, True]):
            eu.restart_process()
        target, text = w.render(tpl, lits(ctx, tpl, 's%d' % k))
        retag(w, infos)
        p = outcome(twins[at], text)
        try:
            r = ('rows', w.invoke(target) if tpl.startswith('select') else w.invoke(target) and [] or [])
            ctx.cover('answered')
        except Exception as e:      # noqa
            rc.control(e)
            ctx.note('error', repr(e) if not symex_args(e) else type(e).__name__)
            r = ('refused', None)
            ctx.cover('refused')
        ctx.note('request %d' % k, (infos[at][:3], tpl))
        ctx.check(equal(p, r), 'a request on one of several databases has another result than on that database alone')


def retag(w, infos):
    for h, p, d, u, pw in infos:
        tags = {}
        for t, m in eu.G.md.Delta().meta.get(d, {}).items():
            for c, info in m['columns'].items():
                for kind, name in info.get('enc-cols', {}).items():
                    tags[(m['anonymous'], name)] = {'order-preserving': 'order-cipher', 'arithmetic': 'number-cipher'}.get(kind, 'text-cipher')
        eu.G.servers[(h, str(p), d)].db.tags = tags


READS = ['select * from t', 'select a, s from t where id = 1', 'select max(a), min(a) from t', 'select count(*) from t where a > {i}', "select id from t where s = '{x}' or a > {i}"]
WRITES = ["insert into t (id, a, s) values (7, {i}, '{x}')", 'update t set a = {i} where id = 1', "update t set s = '{x}', n = {i}", 'delete from t where id = 1', 'update t set a = {i} where a > {j}']


def scenarios(tier):
    deep = tier != 'quick'
    out = []

    k2 = 3 if deep else 1

    def add(name, clients, **k):
        bud = k.pop('budget', 2 if deep else 1)
        out.append(Scenario(name, together, dict(clients=clients, budget=bud, **k), '%d clients, at most %d interruptions besides waiting' % (len(clients), bud), max_paths=40000, budget=600))
    for rd in READS:
        for wr in WRITES:
            if not deep and (READS.index(rd) + WRITES.index(wr)) % 2:
                continue
            add('%s | %s' % (rd, wr), [[rd], [wr]])
    for i, a in enumerate(WRITES):
        for b in WRITES[i:]:
            if not deep and '{j}' in a + b and a != b:
                continue
            add('%s | %s' % (a, b), [[a], [b]])
    add('a change between two reads', [['select a from t', 'select a from t'], ['update t set a = {i}']], budget=k2)
    add('a read between two changes', [['select a, n from t', 'select n from t'], ['update t set a = {i}', 'update t set n = {j}']])
    add('the same key', [["insert into t (id, a) values (7, {i})"], ["insert into t (id, a) values (7, {i})"]], unique=True)
    add('the same key, more rows', [["insert into t (id, a) values (6, 1), (7, {i})", 'select id from t'], ["insert into t (id, a) values (7, {i}), (1, {j})"]], unique=True)
    add('sum | insert', [['select sum(a), count(*) from t'], ['insert into t (id, a) values (7, {i})']], enc=SUMS, budget=k2)
    add('sum | sum', [['select sum(a) from t where n > {i}'], ['select avg(a), sum(a) from t where n > {i}']], enc=SUMS)
    add('sum | update', [['select avg(a), count(*) from t'], ['update t set a = {i}']], enc=SUMS)
    U = ('create table u (id int, a int, b int)', {'a': spec(key=K2), 'b': spec()})
    V = ('create table v (id int, s varchar(9))', {'s': spec(key=K2, fuzzy=True)})
    T = (BASE, OTHER)
    W = ('u', 'v', 't')
    KEYS = (BASE, {'a': spec(key='third'), 's': spec(key='fourth', fuzzy=True)})
    add('create | create', [[U, 'insert into u (id, a) values (1, {i})'], [V, "insert into v (id, s) values (1, '{x}')"]], tables=W, rows=0, budget=k2)
    add('create | select', [[U, 'select a from u'], ['select a from t']], tables=W)
    add('create | use', [[U], ['insert into u (id, a) values (1, {i})', 'select * from u']], tables=W, rows=0)
    add('create | drop', [[U], ['drop table t']], tables=W, budget=k2)
    add('drop | select', [['drop table t'], ['select * from t']])
    add('drop | insert', [['drop table t'], ['insert into t (id, a) values (2, {i})', 'select a from t']])
    add('drop | drop', [['drop table t'], ['drop table t']])
    add('drop and create | select', [['drop table t', T], ['select a, n, s from t']], budget=k2)
    add('drop and create | insert', [['drop table t', T], ["insert into t (id, a, n, s) values (7, {i}, {j}, '{x}')"]], budget=k2)
    add('drop and create with other keys | insert', [['drop table t', KEYS], ["insert into t (id, a, n, s) values (7, {i}, {j}, '{x}')"]])
    add('drop and create with other keys | select', [['drop table t', KEYS, "insert into t (id, a, n, s) values (7, {i}, {j}, '{x}')"], ['select a, s from t']])
    add('drop | create', [['drop table t'], ['drop table t', T]])
    add('alter | insert', [['alter table t add unique key (a)'], ['insert into t (id, a) values (7, {i})']])
    for n, c in (('two selects', [['select * from t'], ['select a from t']]), ('create | select', [[U, 'insert into u (id, a) values (1, {i})'], ['select a from t']]),
                 ('create | create', [[U], [V]]), ('insert | select', [['insert into t (id, a) values (7, {i})'], ['select * from t']])):
        add('first requests of a process: ' + n, c, cold=True, tables=W, steps=90)
    if deep:
        add('three clients', [['select a from t'], ['update t set a = {i}'], ['insert into t (id, a) values (7, {i})']])
        add('three clients, create', [['drop table t'], [U], ['select a from t']], tables=W)
    n = 3 if deep else 2
    for name, infos in SESSIONS.items():
        out.append(Scenario('sessions: ' + name, sessions, dict(infos=infos, n=n), '%d requests, each any of %d sessions, with the right or a wrong password' % (n, len(infos)), max_paths=4000, budget=600))
    for name, infos in PLACES.items():
        for restart in (False, True):
            out.append(Scenario('databases %s%s' % (name, ', restarts' if restart else ''), databases, dict(infos=infos, n=n, restart=restart), '%d requests, each on any of %d databases' % (n, len(infos)), max_paths=4000, budget=600))
    return out
