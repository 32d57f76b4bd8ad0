"""D01: the connection pool: one user per connection, the limit, no work of other users, no lost connection, no endless wait."""
import threading
import types

import symex
from runner import Scenario
from sched import Scheduler, Lock, Kill

ASSUMPTIONS = [
    'a thread is interrupted only where it takes the lock, uses the driver or touches the count or the list of idle connections of the pool, '
    'and at most as often as a scenario says (beyond the places where it has to wait)',
    'the driver behaves as MySQL: what is not committed is undone when the connection is lost or closed; a closed or lost connection fails every call; '
    'a failing call fails before its effect, or with its effect and the connection lost',
    'threading.Condition is a reentrant lock that wakes its waiters in their order',
]
MUST_COVER = ('waited', 'granted', 'reused', 'refused')
P = None
CUR = [None]


def setup(symbolic):
    global P
    import dbutils.pooled_db as p
    import dbutils.steady_db as s
    P = p
    ns = types.SimpleNamespace(**vars(threading))
    ns.Condition = ns.Lock = ns.RLock = lambda *a: Lock(CUR[0])
    for m in (p, s):
        for k, v in list(vars(m).items()):
            if v is threading:
                setattr(m, k, ns)
            elif v in (threading.Condition, threading.Lock, threading.RLock) if isinstance(v, type) or callable(v) else False:
                setattr(m, k, ns.Condition)


# ------------------------------------------------------------------ the driver

class Error(Exception):
    pass


class OperationalError(Error):
    pass


class InterfaceError(Error):
    pass


class InternalError(Error):
    pass


class ProgrammingError(Error):
    pass


class Driver:
    """a DB-API module: one server, its connections and what they committed"""
    OperationalError, InterfaceError, InternalError, ProgrammingError = OperationalError, InterfaceError, InternalError, ProgrammingError

    def __init__(self, ctx, level, sched=None, faults=0, calls=20, kinds=('error', 'lost', 'done')):
        self.ctx, self.threadsafety, self.sched = ctx, level, sched
        self.conns, self.committed, self.n = [], [], 0
        self.faults_on = False
        self.ats = [ctx.int('fault%d' % i, 0, calls) for i in range(faults)]
        self.kind = [ctx.int('kind%d' % i, 0, len(kinds) - 1) for i in range(faults)]
        self.kinds, self.fired, self.used, self.only = kinds, 0, 0, None
        for a, b in zip(self.ats, self.ats[1:]):
            ctx.assume(a < b)

    def step(self):
        if self.sched:
            self.sched.step()

    def call(self, op, conn, act):
        self.step()
        if conn is not None and not conn.alive:
            raise OperationalError('%s: no connection' % op)
        k = self.fault(op)
        if k is None:
            return act()
        self.fired += 1
        self.ctx.note('fault', '%s: %s' % (k, op))
        if k == 'done':
            act()
        if conn is not None and (k != 'error' or op in ('rollback', 'ping')):
            conn.lose()
        raise (ProgrammingError if k == 'wrong' and op == 'execute' else OperationalError)('injected: ' + op)

    def fault(self, op):
        if not self.faults_on or (self.only and op != self.only) or (self.sched and self.sched.me() is None):
            return None
        i, self.n = self.n, self.n + 1

        def decide():
            if self.used == len(self.ats) or not bool(self.ats[self.used] == i):
                return None
            k = self.kind[self.used]
            self.used += 1
            for j, name in enumerate(self.kinds[:-1]):
                if bool(k == j):
                    return name
            return self.kinds[-1]
        return self.sched.guard(decide) if self.sched else decide()

    def connect(self, *a, **k):
        assert k == dict(db='points') and not a, 'connected elsewhere: %r %r' % (a, k)
        def act():
            c = Raw(self)
            self.conns.append(c)
            return c
        def new():
            return act()
        self.step()
        kind = self.fault('connect')
        if kind is not None:
            self.fired += 1
            self.ctx.note('fault', 'connect')
            raise OperationalError('injected: connect')
        return new()

    def alive(self):
        return [c for c in self.conns if c.alive]


class Raw:
    def __init__(self, driver):
        self.driver, self.alive, self.pending, self.session = driver, True, [], []

    def lose(self):
        self.alive, self.pending = False, []

    def cursor(self, *a, **k):
        return self.driver.call('cursor', self, lambda: RawCursor(self))

    def commit(self):
        def act():
            self.driver.committed += self.pending
            self.pending = []
        self.driver.call('commit', self, act)

    def rollback(self):
        def act():
            self.pending = []
        self.driver.call('rollback', self, act)

    def ping(self, reconnect=False):
        self.driver.call('ping', self, lambda: None)

    def close(self):
        self.driver.step()
        self.lose()


class RawCursor:
    def __init__(self, raw):
        self.raw, self.rows = raw, None

    def execute(self, what):
        def act():
            if isinstance(what, str):
                self.raw.session.append(what)
                return
            if what[0] == 'write':
                self.raw.pending.append(what)
            self.rows = list(self.raw.pending)
        self.raw.driver.call('execute', self.raw, act)

    def fetchall(self):
        return self.rows

    def close(self):
        self.rows = None


# ------------------------------------------------------------------ the pool and its users

def make_pool(ctx, driver, cfg):
    """the real pool, interrupted where it touches its state as well"""
    if driver.sched is None:
        return P.PooledDB(driver, db='points', **cfg)

    class Pool(P.PooledDB):
        pass

    def state(name):
        def get(self):
            driver.step()
            return self.__dict__[name]

        def put(self, v):
            driver.step()
            self.__dict__[name] = v
        setattr(Pool, name, property(get, put))
    state('_connections')
    state('_idle_cache')
    return Pool(driver, db='points', **cfg)


def effective(cfg):
    """the limits as documented: (idle connections kept, connections allowed), 0: no limit"""
    cached = max(cfg.get('maxcached') or 0, (cfg.get('mincached') or 0) if cfg.get('maxcached') else 0)
    m = cfg.get('maxconnections') or 0
    if m:
        m = max(m, cached, cfg.get('maxshared') or 0)
    return cached, m


class Users:
    """what the users of the pool see of it"""

    def __init__(self, ctx, driver, pool, cfg):
        self.ctx, self.driver, self.pool, self.cfg = ctx, driver, pool, cfg
        self.cached, self.limit = effective(cfg)
        self.active, self.held = {}, {}     # requests that are not over; user -> connection of the driver
        self.shared = set()
        self.waiting = 0

    def check(self, cond, msg):
        if not cond:
            s = self.driver.sched
            if s is None or s.me() is None:
                self.ctx.fail(msg)
            s.guard(lambda: self.ctx.fail(msg))

    def request(self, who, shareable=False):
        self.active[who] = True
        try:
            con = self.pool.connection() if shareable is None else self.pool.connection(shareable)
        except P.TooManyConnections:
            del self.active[who]
            self.ctx.cover('refused')
            self.check(not self.cfg.get('blocking'), 'a request is refused though the pool makes users wait')
            self.check(self.limit and (len(self.active) >= self.limit or self.shared),
                       'a request is refused though the limit of connections is not reached')
            return None
        except OperationalError:
            del self.active[who]
            self.check(self.driver.fired, 'a request fails though the database answers')
            return None
        self.granted(who, shareable)
        return con

    def granted(self, who, shareable):
        self.ctx.cover('granted')
        if self.limit and not self.shared and not shareable:
            self.check(len(self.held) < self.limit, 'more connections are handed out than allowed')

    def use(self, who, con, what, shared=False):
        """runs a statement -> True if it is acknowledged"""
        try:
            cur = con.cursor()
            cur.execute(what)
            rows = cur.fetchall()
            raw = cur.raw
        except Error as e:
            self.check(self.driver.fired or isinstance(e, ProgrammingError), 'a statement fails though the database answers')
            return False
        for other, r in list(self.held.items()):
            if other != who and not (shared and other in self.shared):
                self.check(r is not raw, 'two users have the same connection')
        self.held[who] = raw
        if shared:
            self.shared.add(who)
        if not shared:
            self.check(all(x[1] == who for x in rows), 'a connection comes with uncommitted work of another user')
        if self.limit and not self.driver.fired and not self.cfg.get('maxusage'):
            self.check(len(set(map(id, self.held.values()))) <= self.limit, 'more connections are in use than allowed')
            self.check(len(self.driver.alive()) <= self.limit, 'more connections are open than allowed')
        return True

    def release(self, who, con):
        self.held.pop(who, None)
        self.shared.discard(who)
        con.close()
        self.active.pop(who, None)

    def at_rest(self):
        """all users are done"""
        ctx, d = self.ctx, self.driver
        d.faults_on = False
        alive = d.alive()
        ctx.check(not any(c.pending for c in alive), 'uncommitted work is left on a connection of the pool')
        if self.cached:
            ctx.check(len(alive) <= self.cached, 'more idle connections are kept than allowed')
        if self.limit:
            ctx.check(len(alive) <= self.limit, 'more connections are open than allowed')
        n = self.limit or 2
        got = []
        before = len(d.conns)
        for i in range(n):
            try:
                got.append(self.pool.connection(False))
            except (P.TooManyConnections, Kill):
                ctx.fail('a released connection is lost for later users')
        raws = []
        for i, c in enumerate(got):
            cur = c.cursor()
            cur.execute(('read', 'late%d' % i))
            raws.append(cur.raw)
        ctx.check(len(set(map(id, raws))) == n, 'two users have the same connection')
        if d.fired == 0 and not self.cfg.get('maxusage'):
            ctx.check(len(d.conns) - before <= max(0, n - len(alive)), 'idle connections are not used again')
        if len(d.conns) - before < n:
            ctx.cover('reused')
        if self.limit:
            try:
                self.pool.connection(False)
                over = True
            except (P.TooManyConnections, Kill):
                over = False
            ctx.check(not over, 'more connections are handed out than allowed')
        for c in got:
            c.close()


def client(u, who, steps, shareable=False, outcome=None):
    """one user: a list of steps on a connection of its own"""
    out = outcome if outcome is not None else {}
    con = u.request(who, shareable)
    if con is None:
        out['refused'] = True
        return
    shared = bool(shareable) and u.pool._maxshared > 0
    mine, begun, failed = [], False, False
    for i, st in enumerate(steps):
        if st == 'begin':
            con.begin()
            begun, mine, failed = True, [], False
        elif st == 'write':
            what = ('write', who, i)
            if u.use(who, con, what, shared):
                mine.append(what)
            else:
                failed = True
                break
        elif st == 'read':
            u.use(who, con, ('read', who), shared)
        elif st == 'again':
            out.setdefault('undone', []).extend(mine)
            begun, mine = False, []
            u.release(who, con)
            con = u.request(who, shareable)
            if con is None:
                out['refused'] = True
                return
        elif st == 'commit':
            try:
                con.commit()
            except Error:
                u.check(u.driver.fired, 'a commit fails though the database answers')
                failed = True
                out.setdefault('unsure', []).extend(mine)
                break
            if begun or len(mine) < 2 or not u.driver.fired:
                out.setdefault('durable', []).extend(mine)
            else:
                out.setdefault('unsure', []).extend(mine)
            begun, mine = False, []
        elif st == 'rollback':
            try:
                con.rollback()
            except Error:
                failed = True
                break
            out.setdefault('undone', []).extend(mine)
            begun, mine = False, []
    if not out.get('unsure') or not failed:
        out.setdefault('undone', []).extend(mine)
    if steps and steps[-1] == 'drop':
        u.held.pop(who, None)
        u.shared.discard(who)
        con = None
        u.active.pop(who, None)
    else:
        u.release(who, con)


def account(ctx, driver, outcomes):
    """what the users were told about their writes is so"""
    done = driver.committed
    ctx.check(len(set(done)) == len(done), 'a statement is carried out twice')
    for o in outcomes:
        for x in o.get('durable', ()):
            ctx.check(x in done, 'an acknowledged write is lost')
        for x in o.get('undone', ()):
            ctx.check(x not in done, 'a write that was not committed is kept')


def threads(ctx, cfg, users, budget=2, faults=0, level=2, steps=70, calls=14, kinds=('error', 'lost', 'done')):
    CUR[0] = None
    s = Scheduler(ctx, budget, steps)
    CUR[0] = s
    try:
        d = Driver(ctx, level, s, faults, calls, kinds)
        pool = make_pool(ctx, d, cfg)
        u = Users(ctx, d, pool, cfg)
        outs = []
        for i, (st, shareable) in enumerate(users):
            o = {}
            outs.append(o)
            s.spawn('user%d' % i, lambda i=i, st=st, sh=shareable, o=o: client(u, i, st, sh, o))
        d.faults_on = True
        stuck = s.run()
        ctx.note('schedule', ' '.join(s.trace))
        if len(s.trace) > len(users):
            ctx.cover('waited')
        ctx.check(not stuck, 'a user waits for ever though the connections were released')
        account(ctx, d, outs)
        u.at_rest()
    finally:
        CUR[0] = None


# ------------------------------------------------------------------ histories of one thread

def history(ctx, n, cfg=None, faults=0, level=2, moves=('get', 'put', 'write', 'commit', 'lose'), kinds=('error', 'lost', 'done'), sharing=False):
    """n steps, each a symbolic choice, under symbolic limits"""
    CUR[0] = None
    cfg = dict(cfg) if cfg is not None else None
    if cfg is None:
        cfg = dict(mincached=ctx.int('mincached', 0, 2), maxcached=ctx.int('maxcached', 0, 2), maxconnections=ctx.int('maxconnections', 0, 2))
        if ctx.symbolic:
            cfg = {k: ctx.concretize(v.e) for k, v in cfg.items()}
        if cfg['maxconnections'] and max(cfg['maxconnections'], cfg['maxcached']) < cfg['mincached']:
            ctx.done()
        if sharing:
            cfg['maxshared'] = 1 if bool(ctx.int('maxshared', 1, 2) == 1) else 2
    d = Driver(ctx, level, None, faults, 4 * n, kinds)
    pool = P.PooledDB(d, db='points', **cfg)
    u = Users(ctx, d, pool, cfg)
    ctx.check(len(d.conns) == cfg['mincached'] if 'mincached' in cfg else True, 'the pool does not start with the idle connections asked for')
    d.faults_on = True
    cons, outs = {}, {}
    for i in range(n):
        if not cons and i == 0:
            move = 'get'
        else:
            m = ctx.int('move%d' % i, 0, len(moves) - 1)
            for j, move in enumerate(moves):
                if j == len(moves) - 1 or bool(m == j):
                    break
            if move not in ('get', 'share', 'lose', 'close') and not cons:
                ctx.done()          # as a shorter history
        ctx.note('step %d' % i, move)
        if move in ('get', 'share'):
            con = u.request(i, move == 'share')
            if con is not None:
                cons[i] = con
                outs[i] = {}
                u.use(i, con, ('read', i), move == 'share' and pool._maxshared > 0)
        elif move == 'close':
            pool.close()
            idle = set(map(id, d.alive())) - set(map(id, u.held.values()))
            ctx.check(d.fired or not idle, 'closing the pool leaves connections open')
            d.fired += any(not h.alive for h in u.held.values())
        elif move == 'lose':
            for c in d.conns:
                c.lose()
            d.fired += 1
        elif cons:
            ks = list(cons)
            k = ks[-1]
            if len(ks) > 1:
                which = ctx.int('which%d' % i, 0, len(ks) - 1)
                for j, k in enumerate(ks):
                    if j == len(ks) - 1 or bool(which == j):
                        break
            con, o = cons[k], outs[k]
            sh = k in u.shared
            if move == 'write':
                x = ('write', k, i)
                if u.use(k, con, x, sh):
                    o.setdefault('open', []).append(x)
            elif move == 'commit':
                mine = o.pop('open', [])
                try:
                    con.commit()
                    o.setdefault('durable', []).extend(mine if not d.fired or len(mine) < 2 else [])
                except Error:
                    u.check(d.fired, 'a commit fails though the database answers')
            else:
                if not sh:
                    o.setdefault('undone', []).extend(o.pop('open', []))
                if move == 'put':
                    u.release(k, con)
                    try:
                        con.cursor()
                        ok = False
                    except P.InvalidConnection:
                        ok = True
                    ctx.check(ok, 'a released connection can still be used')
                    con.close()         # a second time: nothing happens
                else:
                    u.held.pop(k, None)
                    u.shared.discard(k)
                    u.active.pop(k, None)
                del cons[k]
                con = None
    for k, con in list(cons.items()):
        if k not in u.shared:
            outs[k].setdefault('undone', []).extend(outs[k].pop('open', []))
        u.release(k, con)
    cons.clear()
    con = None
    if not sharing:
        account(ctx, d, outs.values())
    u.at_rest()


def one_user(ctx, n, moves, cfg=None, session=False, faults=0, kinds=('error', 'lost', 'done'), only=None):
    """one connection, n symbolic steps: what the user believes about the transaction it is in is so"""
    CUR[0] = None
    d = Driver(ctx, 2, None, faults, 3 * n, kinds)
    d.only = only
    cfg = dict(mincached=0, maxcached=1, maxconnections=1) if cfg is None else cfg
    pool = P.PooledDB(d, db='points', **dict(cfg, setsession=['set names utf8']) if session else cfg)
    d.faults_on = True
    most = cfg.get('maxusage') or 0
    try:
        con = pool.connection(False)
    except Error:
        ctx.check(d.fired, 'a request fails though the database answers')
        ctx.done()
    open_, durable, undone, begun, whose = [], [], [], False, None
    unsure = []

    def raw_of(cur):
        if session:
            ctx.check(cur.raw.session == ['set names utf8'], 'a connection comes without its session settings')
        return cur.raw

    for i in range(n):
        m = ctx.int('move%d' % i, 0, len(moves) - 1)
        for j, move in enumerate(moves):
            if j == len(moves) - 1 or bool(m == j):
                break
        ctx.note('step %d' % i, move)
        if move == 'begin':
            if begun or open_:
                ctx.done()
            try:
                con.begin()
                begun = True
            except Error:
                ctx.check(d.fired, 'a transaction cannot be begun')
                ctx.done()
        elif move == 'write':
            x = ('write', 0, i)
            before = d.fired
            try:
                cur = con.cursor()
                cur.execute(x)
                raw = raw_of(cur)
            except Error:
                ctx.check(begun or d.fired > max(1, before), 'a lost connection is not replaced outside of transactions')
                ctx.check(d.fired, 'a statement fails though the database answers')
                if begun:
                    ctx.cover('refused')
                    undone += open_
                    open_, begun, whose = [], False, None
                    try:
                        con.rollback()
                    except Error:
                        pass
                else:
                    unsure += open_ + [x]
                    open_ = []
                continue
            if begun and open_:
                ctx.check(whose is raw, 'a transaction goes on with another connection')
            if not begun and whose is not raw:
                unsure += open_
                open_ = []
            if most and not begun:
                raw.uses = getattr(raw, 'uses', 0) + 1
                ctx.check(raw.uses <= most, 'a connection is used more often than allowed')
            whose = raw
            open_.append(x)
            ctx.cover('granted')
        elif move in ('commit', 'rollback'):
            alive = whose is not None and whose.alive
            try:
                getattr(con, move)()
            except Error:
                ctx.check(d.fired, 'a %s fails though the database answers' % move)
                (unsure if move == 'commit' else undone).extend(open_)
            else:
                ctx.check(alive or not begun or not open_, 'a transaction whose connection was lost is acknowledged')
                if alive or begun:
                    (durable if move == 'commit' else undone).extend(open_)
            open_, begun, whose = [], False, None
        elif move == 'lose':
            for c in d.conns:
                c.lose()
            d.fired += 1
        elif move == 'put':
            con.close()
            undone += open_
            open_, begun, whose = [], False, None
            try:
                con = pool.connection(False)
            except Error:
                ctx.check(d.fired, 'a request fails though the database answers')
                ctx.done()
            ctx.cover('reused')
    con.close()
    undone += open_
    done = d.committed
    ctx.check(len(set(done)) == len(done), 'a statement is carried out twice')
    for x in durable:
        ctx.check(x in done, 'an acknowledged write is lost')
    for x in undone:
        ctx.check(x not in done, 'a write that was not committed is kept')
    ctx.check(not any(c.pending for c in d.alive()), 'uncommitted work is left on a connection of the pool')
    ctx.check(len(d.alive()) <= 1, 'more connections are open than allowed')
    ctx.check(len(d.alive()) >= 1 or d.fired, 'an idle connection is not kept')
    con = cur = None
    del pool
    ctx.check(not d.alive(), 'connections stay open after the pool is gone')


W, WC, R_, T2 = ['write'], ['write', 'commit'], ['read'], ['begin', 'write', 'write', 'commit']


def scenarios(tier):
    deep = tier != 'quick'
    out = []
    one = dict(mincached=0, maxcached=1, maxconnections=1, blocking=True)
    two = dict(mincached=1, maxcached=2, maxconnections=2, blocking=True)
    cfgs = {'one, waiting': one, 'two, waiting': two, 'two, one kept': dict(two, mincached=0, maxcached=1),
            'one, refusing': dict(one, blocking=False), 'two, refusing': dict(two, blocking=False),
            'as EulerDB': dict(mincached=2), 'none kept': dict(maxconnections=1, blocking=True)}
    progs = {'write+write': [(W, False), (WC, False)], 'three': [(WC, False), (W, False), (R_, False)],
             'two rounds': [(T2, False), (W + ['drop'], False)]}
    for cn, c in cfgs.items():
        for pn, p in progs.items():
            if not deep and pn == 'two rounds' and cn in ('two, refusing', 'as EulerDB', 'two, one kept'):
                continue
            b = 1 if pn == 'three' and not deep else 2
            out.append(Scenario('threads: %s: %s' % (cn, pn), threads, dict(cfg=c, users=p, budget=b, steps=60),
                                '%d threads, at most %d interruptions besides waiting' % (len(p), b), max_paths=40000, budget=300))
    for cn in ('one, waiting', 'none kept', 'one, refusing'):
        out.append(Scenario('threads, asking again: %s' % cn, threads, dict(cfg=cfgs[cn], users=[(['write', 'again', 'read'], False), (WC, False)], budget=2, steps=60),
                            '2 threads, at most 2 interruptions besides waiting', max_paths=40000, budget=300))
    for cn in ('one, waiting', 'two, waiting', 'as EulerDB'):
        for pn, p in (('write+write', progs['write+write']), ('transactions', [(T2, False), (T2, False)])):
            if not deep and cn == 'two, waiting' and pn == 'transactions':
                continue
            out.append(Scenario('threads, failures: %s: %s' % (cn, pn), threads, dict(cfg=cfgs[cn], users=p, budget=1, faults=1, steps=60),
                                '2 threads, one interruption, one failing call', max_paths=40000, budget=300))
    out.append(Scenario('failures: one user, two failing calls', threads, dict(cfg=one, users=[(T2, False)], budget=0, faults=2, calls=16), '1 user, two failing calls', max_paths=40000, budget=300))
    out.append(Scenario('failures: reuse limit', threads, dict(cfg=dict(one, maxusage=1), users=[(T2, False), (WC, False)], budget=1, faults=0, steps=50),
                        'connections replaced after each use', max_paths=40000, budget=300))
    n = 6 if deep else 5
    every = ('write', 'begin', 'commit', 'lose', 'rollback', 'put')
    out.append(Scenario('one connection', one_user, dict(n=n - 1, moves=every), '%d steps with lost connections' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('one connection, transactions', one_user, dict(n=n, moves=every[:4]), '%d steps with lost connections' % n, max_paths=60000, budget=300))
    out.append(Scenario('one connection, session settings', one_user, dict(n=n - 1, moves=('write', 'commit', 'lose', 'put'), session=True), '%d steps with lost connections' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('one connection, failures', one_user, dict(n=n - 1, moves=every[:3] + every[4:], faults=1), '%d steps, one failing call' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('one connection, lost and failures', one_user, dict(n=n, moves=('write', 'commit', 'begin', 'lose'), faults=1, kinds=('error',), only='connect'), '%d steps with lost connections, one failing reconnection' % n, max_paths=60000, budget=300))
    for m in (1, 2):
        out.append(Scenario('one connection, %d uses' % m, one_user, dict(n=n - 1, moves=('write', 'commit', 'begin', 'put'), cfg=dict(mincached=0, maxcached=1, maxconnections=1, maxusage=m)),
                            '%d steps' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('history: symbolic limits', history, dict(n=n - 1), '%d steps of one thread, limits 0 to 2' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('history: failures', history, dict(n=n - 1, cfg=dict(mincached=0, maxcached=1, maxconnections=2), faults=1, moves=('get', 'put', 'write', 'commit')),
                        '%d steps, one failing call' % (n - 1), max_paths=60000, budget=300))
    out.append(Scenario('history: closing', history, dict(n=n, cfg=dict(mincached=1, maxcached=1, maxconnections=2), moves=('get', 'put', 'write', 'close')),
                        '%d steps, the pool is closed meanwhile' % n, max_paths=60000, budget=300))
    for m in (1, 2):
        out.append(Scenario('history: shared %d' % m, history, dict(n=n, cfg=dict(mincached=0, maxcached=0, maxconnections=2, maxshared=m), moves=('get', 'share', 'put', 'write', 'close'), sharing=True),
                            '%d steps with shared connections' % n, max_paths=60000, budget=300))
    sh = dict(mincached=0, maxcached=0, maxshared=1, maxconnections=1, blocking=True)
    out.append(Scenario('threads: shared', threads, dict(cfg=sh, users=[(R_, True), (R_, True), (R_, True)], budget=1, steps=60), '3 threads', max_paths=40000, budget=300))
    out.append(Scenario('threads: shared and dedicated', threads, dict(cfg=sh, users=[(R_, True), (W, False)], budget=2, steps=60), '2 threads', max_paths=40000, budget=300))
    return out
