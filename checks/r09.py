"""R09: acknowledged statements survive failures, lost connections, crashes and restarts; failed ones leave everything readable."""
import copy
import re
from runner import Scenario
import eu
import minisql
import symex
import r_common as rc
import r03
import r06
import r08
from symex import sx_and
from r_common import setup, ASSUMPTIONS  # noqa

ASSUMPTIONS = ASSUMPTIONS + [
    'the driver fails as MySQL does: a statement or commit fails before or after its effect, with or without losing the connection; DDL commits by itself; what is not committed is rolled back when the connection is lost',
    'the metadata database has the table that data/schema-mysql.sql declares',
]
MUST_COVER = ('acknowledged', 'failed', 'crashed', 'carried out in spite of the error', 'restarted')
FAULTS = {
    # name: (after its effect, connection lost, crash)
    'fails': (False, False, False), 'fails, connection lost': (False, True, False), 'done, answer lost': (True, True, False), 'crash before': (False, True, True), 'crash after': (True, True, True),
}


def clone(db):
    c = minisql.MiniDB()
    c.tables = {n: clone_table(t) for n, t in db.tables.items()}
    c.tags = dict(db.tags)
    return c


def clone_table(t):
    t2 = copy.copy(t)
    t2.rows = [dict(r) for r in t.rows]
    t2.keys = [dict(k) for k in t.keys]
    t2.types = {k: dict(v) for k, v in t.types.items()}
    t2.cols = list(t.cols)
    return t2


class Schedule:
    """at most `budget` of the calls to a server fail, at symbolic places and in symbolic ways"""

    def __init__(self, ctx, budget, kinds, calls):
        import mysql.connector.errors as err
        self.ctx, self.n, self.on, self.fired = ctx, 0, False, False
        self.err, self.kinds = err, kinds
        self.at = [ctx.int('call%d' % i, 0, calls) for i in range(budget)]
        self.kind = [ctx.int('kind%d' % i, 0, len(kinds) - 1) for i in range(budget)]
        for a, b in zip(self.at, self.at[1:]):
            ctx.assume(a < b)

    def __call__(self, server, op, sql):
        if not self.on:
            return None
        i, self.n = self.n, self.n + 1
        for a, k in zip(self.at, self.kind):
            if bool(a == i):
                for j, name in enumerate(self.kinds):
                    if bool(k == j):
                        break
                self.fired = True
                self.ctx.note('fault', '%s: %s of %s, %s' % (name, op, server.name, sql[:60]))
                after, lost, crash = FAULTS[name]
                if crash:
                    return after, eu.Crash(), True
                if not lost:
                    return after, (self.err.InternalError if op == 'commit' else self.err.ProgrammingError)('injected'), False
                return after, self.err.OperationalError('injected: lost connection'), True
        return None


def rows(w, table):
    """what a client reads, None if the table is not there"""
    try:
        return [tuple(r) for r in w.invoke('select * from ' + table) or []]
    except Exception as e:      # noqa
        rc.control(e)
        return None


def equal(a, b):
    """two lists of rows, as sets"""
    if len(a) != len(b):
        return False
    out = True
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p is None or q is None:
                if not (p is None and q is None):
                    return False
            elif minisql.is_text(p) != minisql.is_text(q):
                return False
            else:
                out = sx_and(out, p == q)
    return out


def observe(ctx, w, cands, universe, what):
    """the candidates that agree with what clients read"""
    seen = {t: rows(w, t) for t in universe}
    ctx.note('read', {t: r for t, r in seen.items() if r is not None})
    out = []
    for c in cands:
        ok = set(t for t in universe if seen[t] is not None) == set(c.tables) & set(universe)
        for t in universe if ok else ():
            if seen[t] is not None:
                ok = sx_and(ok, equal(seen[t], [tuple(r[x] for x in c.tables[t].cols) for r in c.tables[t].rows]))
        if ok is True or ok is not False and bool(ok):
            out.append(c)
    ctx.note('expected one of', [{n: [tuple(r[x] for x in t.cols) for r in t.rows] for n, t in c.tables.items()} for c in cands])
    ctx.check(out, what)
    return out


def tables(w):
    return sum(len(s.db.tables) for s in eu.G.servers.values())


def late(cands, lost):
    """a table whose creation was reported as failed may turn up, empty, when the metadata is read again"""
    out = list(cands)
    for t in lost:
        for c in list(out):
            if t.name not in c.tables:
                c2 = clone(c)
                c2.tables[t.name] = clone_table(t)
                c2.tables[t.name].rows = []
                out.append(c2)
    return out


def history(ctx, e, steps, budget=1, kinds=tuple(FAULTS), calls=12):
    w = eu.World(ctx)
    L = rc.lits(ctx, ' '.join(steps), wlen=2)
    universe = sorted(set(re.findall(r'\b(?:table(?: if (?:not )?exists)?|into|from|update) `?(\w+)', ' '.join(steps))))
    cands = [clone(w.plain)]
    lost = []
    sched = Schedule(ctx, budget, kinds, calls)
    eu.G.fault = sched
    for s in steps:
        if s == 'restart':
            eu.restart_process()
            cands = late(cands, lost)
            ctx.cover('restarted')
            continue
        s, _, opt = s.partition(' -- ')
        create = s.lower().startswith('create')
        name = s.split('(')[0].split()[-1].strip('`') if create else None
        o = {k: eu.spec(**v) for k, v in encs(opt or e.get(name, '')).items()} if create else None
        target, text = w.render(s, {k: v for k, v in L.items() if '{%s}' % k in s})
        after = []
        for c in cands:
            c2 = clone(c)
            try:
                c2.execute(text)
            except minisql.SqlError:
                continue
            after.append(c2)
        sched.on, sched.fired = True, False
        crash, held = False, tables(w)
        try:
            w.invoke(target, o)
            no = False
        except eu.Crash:
            no = crash = True
        except Exception as x:      # noqa
            rc.control(x)
            no = True
        sched.on = False
        if create and tables(w) > held:
            # carried out by the server
            ctx.known_region('K06', any(name in c.tables for c in cands))
        ctx.note('statement', target)
        ctx.note('outcome', 'crash' if crash else 'error' if no else 'acknowledged')
        if no and create and sched.fired:
            lost += [c.tables[name] for c in after]
        if crash:
            eu.restart_process()
            cands, after = late(cands, lost), late(after, lost)
            ctx.cover('crashed')
        if not no:
            ctx.check(after, 'a statement that the plaintext database refuses is acknowledged')
            ctx.cover('acknowledged')
            cands = after
        elif not sched.fired:
            ctx.check(len(after) < len(cands), 'a statement is refused after an earlier failure')
            cands = [c for c in cands]
        else:
            ctx.cover('failed')
            before = cands
            cands = cands + after
        w.retag()
        cands = observe(ctx, w, cands, universe, 'what clients read is neither the state before nor after the statement' if no else 'an acknowledged statement has another effect')
        if no and sched.fired and not any(c in before for c in cands):
            ctx.cover('carried out in spite of the error')
    memory = copy.deepcopy(w.meta)
    eu.restart_process()
    cands = late(cands, lost)
    ctx.cover('restarted')
    observe(ctx, w, cands, universe, 'what clients read changes when the process is restarted')
    for t in {t for c in cands for t in c.tables if t in memory}:
        ctx.note('described', (memory.get(t), w.meta.get(t)))
        ctx.check(t in w.meta and t in memory and all(w.meta[t][k] == memory[t][k] for k in ('anonymous', 'columns')), 'the metadata read after a restart is not that written')


def encs(text):
    return r06.encs(text)


T, R = 'create table t (id int, a int, n int)', 'create table r (id int, x int, s varchar(9))'
INS = 'insert into t (id, a, n) values (1, {i}, {j})'
INS2 = 'insert into t (id, a, n) values (2, {j}, {i})'
INS_R = "insert into r (id, x, s) values (1, {i}, '{x}')"
HISTORIES = [
    (dict(t='a'), [T, INS, INS2]),
    (dict(t='a:h n'), [T, INS, 'update t set a = {k} where id = 1', 'delete from t where a = {k}']),
    (dict(t='a', r='s:fs x:2'), [T, R, INS, INS_R]),
    (dict(t='a', r='s:f'), [R, INS_R, T, 'drop table r', INS]),
    (dict(t='a'), [T, INS, 'drop table t', 'create table t (id int, a varchar(9), n int) -- a:s n', INS2.replace('{j}', "'{x}'", 1)]),
    (dict(t='a', r='x'), [T, INS, 'drop table t', R, 'create table if not exists t (id int, a int, n int)', INS2]),
    (dict(t='a'), [T, 'alter table t add unique u (a)', INS, INS2]),
    (dict(t='a'), [T, 'alter table t add primary key (id)', INS, INS, 'drop table t']),
    (dict(t='a'), ['create table t (id int, a int, n int, n int)', T, INS]),
    (dict(t='a', r='x'), [T, 'create table r (id int, x int, x int)', INS, R, INS_R]),
    (dict(t=''), [T, INS, 'update t set n = n + 1', 'drop table t', T]),
    (dict(t='a:hs n:2'), ['create table t (id int, a int, n int, primary key (a))', INS, INS, INS2]),
    (dict(t='a'), [T, INS, 'restart', INS2, 'restart', 'drop table t']),
    (dict(t='a:h', r='s:fs x:h'), [R, 'restart', T, INS_R, 'restart', 'update r set x = {k}', 'insert into t (id, a, n) values (3, null, null)']),
    (dict(t='a'), [T, INS, 'drop table nosuch', 'select a from t where n = {i}', 'insert into t (id) values (3)', "insert into t (id, a) values (4, 'abc')"]),
]
# a failed CREATE TABLE for an existing name
RECREATE = [
    (dict(t='a'), [T, INS, T, INS2]),
    (dict(t='a'), [T, INS, 'create table if not exists t (id int, a int, n int)', INS2]),
    (dict(t='a'), [T, INS, 'create table t (id int, a int, n int, n int)', INS2]),
    (dict(t='a'), [T, INS, 'create table t (id int, a int, n int, primary key (zz))', INS2]),
]


def scenarios(tier):
    out = []
    big = tier != 'quick'
    for e, steps in HISTORIES + RECREATE:
        for kinds in [tuple(FAULTS)[:3], tuple(FAULTS)[3:]]:
            out.append(Scenario('%s %s: %s' % ('; '.join(steps), e, ' / '.join(kinds)), history,
                                dict(e=e, steps=steps, kinds=kinds, budget=1, calls=7 * len(steps)), 'every place of one failure or crash'))
            if big:
                out.append(Scenario('%s %s: %s, twice' % ('; '.join(steps), e, ' / '.join(kinds)), history,
                                    dict(e=e, steps=steps, kinds=kinds, budget=2, calls=7 * len(steps)), 'every two places of failures or crashes'))
    return out
