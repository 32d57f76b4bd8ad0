"""R08: ALTER TABLE and DROP TABLE act on the stored table as they do on the plaintext one."""
from runner import Scenario
import eu
import minisql
import r_common as rc
import r03
import r06
from r06 import declare, encs, structure, agree
from r_common import setup  # noqa

ASSUMPTIONS = r06.ASSUMPTIONS
MUST_COVER = ('done', 'refused', 'rejected', 'accepted')
R, T = 'create table r (id int primary key, x int, s varchar(9))', 'create table t (id int, a int, n int, s varchar(9))'
INS_T = "insert into t (id, a, n, s) values ({i}, {j}, {k}, '{x}')"
INS_T2 = "insert into t (id, a, n, s) values ({j}, {i}, {j}, '{y}')"
INS_R = "insert into r (id, x, s) values ({i}, {j}, '{x}')"


def state(ctx, w, enc):
    """the set of tables, their structure and contents"""
    ctx.check(set(w.meta) == set(w.plain.tables), 'described tables are not those of the plaintext database')
    for t in w.plain.tables:
        structure(ctx, w, enc[t], t)
        w.contents(t)
    names = {m['anonymous'] for m in w.meta.values()}
    ctx.check(names == {t for t in w.server.db.tables if t.startswith('table_')}, 'the server holds other tables than those described')


def history(ctx, e, steps, must=True):
    w = eu.World(ctx)
    enc = {}
    L = rc.lits(ctx, ' '.join(steps), wlen=2)
    for s in steps:
        s, _, opt = s.partition(' -- ')
        kind = s.split()[0].lower()
        if kind == 'create':
            t = s.split('(')[0].split()[-1].strip('`')
            o = encs(opt or e.get(t, ''))
            ctx.check(not declare(w, s, o, L), 'a supported table is refused')
            enc[t] = o
        elif kind in ('insert', 'update', 'delete'):
            agree(ctx, w, s, L)
        else:
            try:
                w.plain.execute(s.rstrip(' ;'))
                ok = True
            except minisql.SqlError:
                ok = False
            try:
                w.invoke(s)
                no = False
            except Exception as x:      # noqa
                rc.control(x)
                no = True
            ctx.check(no or ok, 'a statement that the plaintext database refuses is carried out')
            if ok and no:
                ctx.check(not must, 'a supported statement is refused')
                ctx.cover('refused')
                # nothing has changed: go on without it
                ctx.check(not w.server.db.misuse, 'the server is asked to calculate with ciphertexts')
                return
            ctx.cover('refused' if no else 'done')
            w.retag()
    state(ctx, w, enc)


def text(ctx, sql, blanks):
    """blanks and letter case do not matter"""
    import sql_parsing
    want = sql_parsing.parse_alter_key(sql)
    ctx.check(bool(want), 'statement is not understood')
    from symex.values import SymStr
    items, words = [], []
    for k, part in enumerate(sql.split(' ')):
        if k:
            b = ctx.str('b%d' % k, 1, [(0x20, 0x20), (0x9, 0xa), (0xd, 0xd)]) if k in blanks else ' '
            items.append(b)
        up = part.lower() in ('alter', 'table', 'add', 'drop', 'primary', 'key', 'foreign', 'references', 'index', 'unique', 'fulltext', 'constraint')
        items.append((ctx.str('w%d' % k, 1, [(ord(part[0].upper()),) * 2, (ord(part[0]),) * 2]) + part[1:]) if up else part)
    s = ''
    for i in items:
        s = s + i
    ctx.note('text', s)
    got = sql_parsing.parse_alter_key(s)
    ctx.check(len(got) == len(want), 'blanks or letter case change the statement')
    for k in want:
        ctx.check(k in got and got[k] == want[k], 'blanks or letter case change the statement')
    out = sql_parsing.format_alter_key(got)
    ctx.check(sql_parsing.parse_alter_key(out) == want, 'the statement changes when it is sent')
    ctx.cover('done')


HISTORIES = [
    # encrypted columns, statements
    (dict(t='a'), [T, 'alter table t add primary key (id)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add primary key (a)', INS_T, INS_T2]),
    (dict(t='id:h a s:fs'), [T, 'alter table t add primary key(id);', INS_T, INS_T2]),
    (dict(t='s:2 a'), [T, 'ALTER TABLE `t` ADD PRIMARY KEY (s)', INS_T, INS_T2]),
    (dict(t='a'), [T, INS_T, INS_T2, 'alter table t add primary key (a)', 'insert into t (id) values (1)']),
    (dict(t='a'), [T, INS_T, 'alter table t add primary key (id)', 'alter table t drop primary key', INS_T]),
    (dict(t='a'), [T, 'alter table t drop primary key', INS_T]),
    (dict(t='a'), [T, 'alter table t add primary key (a)', 'alter table t add primary key (id)', INS_T, INS_T]),
    (dict(t='a s'), [T, 'alter table t add unique ua (a)', INS_T, INS_T2]),
    (dict(t='a s'), [T, 'alter table t add unique us (s)', INS_T, INS_T2]),
    (dict(t='a s'), [T, 'alter table t add unique un (n)', INS_T, INS_T2]),
    (dict(t='a s:2'), [T, INS_T, INS_T2, 'alter table t add unique us(s);', INS_T]),
    (dict(t='a:h s'), [T, 'alter table t add index ia (a)', INS_T, 'alter table t drop index ia', INS_T]),
    (dict(t='a s:fs'), [T, 'alter table t add index i1 (s)', 'alter table t add index i2 (n)', INS_T]),
    (dict(t='a'), [T, 'alter table t add unique u (a)', 'alter table t drop index u', INS_T, INS_T]),
    (dict(t='a'), [T, 'alter table t drop index nosuch', INS_T]),
    (dict(t='a'), [T, 'alter table t add fulltext ft (s)', INS_T]),
    (dict(), [R, T, 'alter table t add constraint k foreign key (n) references r (id)', INS_T, INS_R, INS_T2]),
    (dict(r='id', t='a n'), [R, T, 'alter table t add constraint k foreign key (n) references r (id)', INS_T, INS_R, INS_T2, 'delete from r']),
    (dict(r='id:h x', t='a:s'), [R, T, 'alter table t add constraint k foreign key (a) references r (id);', INS_R, INS_T, 'alter table t drop foreign key k', INS_T2]),
    (dict(r='x:2', t='a:2'), [R, T, 'alter table r add unique ux (x)', 'alter table t add constraint k foreign key (a) references r (x)', INS_R, INS_T]),
    (dict(r='s', t='s:f'), ['create table r (id int, s varchar(9) primary key, x int)', T, 'alter table t add constraint k foreign key (s) references r (s)', INS_R, INS_T, INS_T2]),
    (dict(r='id', t='a n'), [R, T, INS_T, 'alter table t add constraint k foreign key (n) references r (id)', INS_T2]),
    (dict(r='id', t='n'), [R, T, 'alter table t add constraint k foreign key (n) references r (id)', 'drop table r', INS_R, INS_T]),
    (dict(r='id', t='id n'), [R, T, 'alter table t add constraint k foreign key (id) references r (id)', 'alter table t drop foreign key nosuch', INS_R, INS_T]),
    (dict(t='a'), [T, INS_T, 'drop table t']),
    (dict(t='a', r='x'), [T, R, INS_T, INS_R, 'drop table t', INS_R]),
    (dict(t='a', r='x'), [T, R, INS_T, INS_R, 'DROP TABLE r;', INS_T]),
    (dict(t='a'), [T, INS_T, 'drop table if exists t', T, INS_T2]),
    (dict(t='a'), [T, INS_T, 'drop table `t`', 'create table t (id int, a int, n int, s varchar(9)) -- s:fs n:h', INS_T2]),
    (dict(t='a'), [T, INS_T, 'drop table t', "create table t (a varchar(9), n int) -- n", "insert into t (a, n) values ('{x}', {i})"]),
    (dict(t='a s'), [T, 'drop table t', 'drop table t']),
    (dict(t='a s'), [T, INS_T, 'drop table nosuch', INS_T2]),
    (dict(t='a'), [T, INS_T, 'drop table t', T, INS_T, 'drop table t', T, INS_T2]),
]
ANY = [
    (dict(r='id', t='a'), [R, T, 'alter table t add constraint k foreign key (n) references r (id)', INS_T]),
    (dict(r='id:2', t='a'), [R, T, 'alter table t add constraint k foreign key (a) references r (id)', INS_T]),
    (dict(t='s'), [T, 'alter table t add fulltext ft (s)', INS_T]),
    (dict(t='a'), [T, 'alter table t add primary key (id, a)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add index i (id, a)', INS_T]),
    (dict(t='a'), [T, 'alter table t add index (a)', INS_T]),
    (dict(t='a'), [T, 'alter table t add unique (a)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add unique index (a)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add unique key (n)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add fulltext (s)', INS_T]),
    (dict(t='a', r='id'), [R, T, 'alter table t add constraint foreign key (a) references r (id)', INS_R, INS_T]),
    (dict(t='a'), [T, 'alter table t add unique u (n)', 'alter table t drop index', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add column z int', INS_T]),
    (dict(t='a'), [T, 'alter table t drop column a', INS_T]),
    (dict(t='a'), [T, 'alter table t rename to z', INS_T]),
    (dict(t='a'), [T, 'alter table t modify a int not null', INS_T]),
    (dict(t='a'), [T, 'alter table t add primary key (`a`)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table t add unique key u (a)', INS_T, INS_T2]),
    (dict(t='a'), [T, 'alter table nosuch add primary key (a)', INS_T]),
    (dict(t='a'), [T, 'alter table t add primary key (zz)', INS_T]),
    (dict(t='a'), [T, 'alter table t add index i (zz)', INS_T]),
    (dict(t='a', r='x'), [R, T, 'drop table t, r', INS_T]),
    (dict(t='a'), [T, 'drop table if exists nosuch', INS_T]),
    (dict(t='a'), [T, 'drop view t', INS_T]),
    (dict(t='a'), [T, 'truncate table t', INS_T]),
    (dict(t='a'), [T, 'drop table t cascade', INS_T]),
    (dict(t='a'), [T, 'rename table t to z', INS_T]),
    (dict(t='a', r='x'), [R, T, 'alter table t add foreign key (a) references r (id)', INS_T]),
    (dict(t='a', r='x'), [R, T, 'alter table t add constraint k foreign key (a) references nosuch (id)', INS_T]),
]
for _k in ('add primary key', 'add unique u', 'add unique', 'add index i', 'add index', 'add key i', 'add unique key u', 'add fulltext f', 'add constraint c primary key', 'add constraint c unique'):
    for _c in ('(a, n)', '(a,n)', '(n, a)', '(a desc)', '(s(3))', '(a, s(3))', '(n) using btree', "(n) comment 'x'", '(a), add index j (n)', '(a, zz)', '(a, a)'):
        ANY.append((dict(t='a s:f'), [T, 'alter table t %s %s' % (_k, _c), INS_T, INS_T2]))
for _k in ('constraint k foreign key', 'foreign key', 'constraint foreign key'):
    for _c in ('(a, n) references r (id, x)', '(a) references r (id) on delete cascade', '(a) references r (id) on delete set null on update cascade', '(a, n) references r (id)', '(a) references r (id, x)', '(a) references r (x)', '(a) references t (id)', '(a) references `r` (`id`)', '(zz) references r (id)'):
        ANY.append((dict(t='a', r='id'), ['create table r (id int, x int, s varchar(9), primary key (id, x))' if 'x)' in _c else R, T, 'alter table t add %s %s' % (_k, _c), INS_R, INS_T, 'delete from r']))
TEXTS = ['alter table t add primary key ( id );', 'alter table t drop primary key', 'alter table t drop foreign key k', 'alter table t add index i ( a )', 'alter table t add unique u ( a ) ;', 'alter table t add fulltext f ( s )',
         'alter table t drop index i ;', 'alter table t add constraint k foreign key ( a ) references r ( id )']


def scenarios(tier):
    out = []
    for must, hs in ((True, HISTORIES), (False, ANY)):
        for e, steps in hs:
            name = '; '.join('%s%s' % (s[:s.index('(')] if s[:6] in ('create', 'insert') else s, '') for s in steps)
            out.append(Scenario('%s %s%s' % (name, e, '' if not any(o.name == '%s %s' % (name, e) for o in out) else len(out)), history, dict(e=e, steps=steps, must=must), 'all values'))
    for t in TEXTS:
        n = t.count(' ')
        for k in range(1, n + 1, 4):
            out.append(Scenario('text %s blanks %d' % (t, k), text, dict(sql=t, blanks=tuple(range(k, min(k + 4, n + 1)))), 'every letter case of the first letters and every blank in four places'))
    return out
