"""R06: CREATE TABLE makes the declared table: stored columns, sizes, defaults, keys and options, and the metadata that describes it."""
from runner import Scenario
import eu
import minisql
import symex
import r_common as rc
import r03
from symex import sx_and, implies
from r_common import setup  # noqa

ASSUMPTIONS = rc.ASSUMPTIONS + [
    'the server enforces NOT NULL, DEFAULT, AUTO_INCREMENT, PRIMARY KEY, UNIQUE, FOREIGN KEY and column sizes as MySQL does in strict mode']
MUST_COVER = ('created', 'refused', 'accepted', 'rejected', 'fits')
K1, K2, HOMO, SM4 = rc.K1, rc.K2, r03.HOMO, r03.SM4
OPT = {'f': dict(fuzzy=True), 'h': dict(arithmetic=True, homomorphic_key=HOMO), 's': dict(sm4=True, sm4_key=SM4), '2': dict(key=K2)}


def encs(text):
    """'a:fh2 b' -> encryption options per column"""
    out = {}
    for part in text.split():
        c, _, o = part.partition(':')
        d = {}
        for k in o:
            d.update(OPT[k])
        out[c] = eu.spec(**d)
    return out


def declare(w, tpl, enc, L={}):
    """-> refused?"""
    target, text = w.render(tpl, {k: v for k, v in L.items() if '{%s}' % k in tpl})
    w.plain.execute(text)
    try:
        w.invoke(target, enc)
    except Exception as e:      # noqa
        rc.control(e)
        return True
    w.retag()
    return False


def default(c):
    return (c['has_default'] and c['default'] is not None, c['default'])


def structure(ctx, w, enc, name='t'):
    p = w.plain.table(name)
    ctx.check(name in w.meta, 'the created table is not described')
    m = w.meta[name]
    s = w.server.db.table(m['anonymous'])
    ctx.check(list(m['columns']) == list(p.cols), 'described columns are not the declared ones')
    names = []
    for c, info in m['columns'].items():
        d = p.types[c]
        ctx.check(info['type'] == d['type'], 'described type of a column is not the declared one')
        ctx.check(bool(info['plaintext']) == (c not in enc), 'column is stored in plain text, or encrypted, against its declaration')
        if info['plaintext']:
            names.append(c)
            ctx.check(c in s.types, 'a plaintext column is missing')
            g = s.types[c]
            for f in ('type', 'args', 'notnull', 'pk', 'auto', 'unsigned'):
                ctx.check(g[f] == d[f], 'plaintext column is created differently (%s)' % f)
            continue
        o = enc[c]
        want = {'symmetric'} | ({'order-preserving'} if d['type'] in ('int', 'float', 'double') else set())
        want |= {k for k, on in (('fuzzy', o.get('fuzzy')), ('arithmetic', o.get('arithmetic')), ('sm4', o.get('sm4'))) if on}
        ctx.check(set(info['enc-cols']) == want, 'column has not the declared ciphertexts')
        ctx.check(info['key'] == o['key'], 'key of a column is not the declared one')
        if o.get('arithmetic'):
            ctx.check(info['homomorphic_key'] == o['homomorphic_key'], 'homomorphic key of a column is not the declared one')
        if o.get('sm4'):
            ctx.check(info['sm4_key'] == o['sm4_key'], 'SM4 key of a column is not the declared one')
        for kind, n in info['enc-cols'].items():
            names.append(n)
            ctx.check(n in s.types, 'a stored column is missing')
            g = s.types[n]
            ctx.check(g['notnull'] == d['notnull'], 'NOT NULL of a stored column differs from the declaration')
            a, b = default(g), default(d)
            ctx.check(a[0] == b[0], 'a stored column has lost or gained its default')
    ctx.check(len(set(names)) == len(names), 'two columns are stored under one name')
    ctx.check(sorted(names) == sorted(s.cols), 'stored columns are not the described ones')

    def stored(t, c):
        i = w.meta[t]['columns'][c]
        return c if i['plaintext'] else i['enc-cols']['symmetric']
    norm = lambda k: (k['kind'], tuple(k['cols']), k.get('ref'), tuple(k.get('refcols') or ()))         # noqa
    want = [(k['kind'], tuple(stored(name, c) for c in k['cols']), k.get('ref') and w.meta[k['ref']]['anonymous'],
             tuple(stored(k['ref'], c) for c in k.get('refcols') or ())) for k in p.keys]
    ctx.check(sorted(map(repr, want)) == sorted(repr(norm(k)) for k in s.keys), 'keys of the created table are not the declared ones')
    opt = lambda t: {k.replace('character', 'charset'): str(v).lower() for k, v in t.spec['opts'].items() if k not in ('comment', 'default')}       # noqa
    ctx.check(opt(s) == opt(p), 'options of the created table are not the declared ones')


def agree(ctx, w, tpl, L):
    """an INSERT, UPDATE or DELETE: accepted exactly when the plaintext database accepts it"""
    target, text = w.render(tpl, {k: v for k, v in L.items() if '{%s}' % k in tpl})
    try:
        w.plain.execute(text)
        ok = True
    except minisql.SqlError:
        ok = False
    try:
        w.invoke(target)
    except Exception as e:      # noqa
        rc.control(e)
        ctx.check(not ok, 'a row that the declared table accepts is refused')
        ctx.cover('rejected')
        return
    ctx.check(ok, 'a row that the declared table refuses is accepted')
    ctx.cover('accepted')


def table(ctx, ddl, enc, stmts=(), others=(), must=True):
    w = eu.World(ctx)
    L = rc.lits(ctx, ' '.join([ddl] + list(stmts)), alphabet=[(0x20, 0x7e)] if '{x}' in ddl else None)
    for d, e in others:
        ctx.check(not declare(w, d, encs(e)), 'a supported table is refused')
    try:
        no = declare(w, ddl, encs(enc), L)
    except minisql.SqlError:
        ctx.done()
    if no:
        ctx.check(not must, 'a supported table is refused')
        ctx.check(not any(t.startswith('table_') for t in w.server.db.tables) or others, 'a refused table was created')
        ctx.check('t' not in w.meta, 'a refused table is described in the metadata')
        ctx.cover('refused')
        return
    structure(ctx, w, encs(enc))
    ctx.cover('created')
    for s in stmts:
        agree(ctx, w, s, L)
    if stmts:
        r03.stored(w)
        for t in [d.split('(')[0].split()[-1] for d, e in others] + ['t']:
            w.contents(t)


def options(ctx, types):
    """every combination of options on every column"""
    w = eu.World(ctx)
    enc = {}
    for c in types:
        if ctx.flag('enc.' + c):
            o = {}
            for k in 'fhs2':
                if k == 'h' and types[c] not in ('int', 'float') or k == 'f' and types[c][0] not in 'cv':
                    continue
                if ctx.flag('%s.%s' % (k, c)):
                    o.update(OPT[k])
            enc[c] = eu.spec(**o)
    ddl = 'create table t (%s)' % ', '.join('%s %s' % x for x in types.items())
    ctx.check(not declare(w, ddl, enc), 'a supported table is refused')
    structure(ctx, w, enc)
    L = {c: 7 if t in ('int', 'float', 'double') else 'abcd' for c, t in types.items()}
    w.both('insert into t (%s) values (%s)' % (', '.join(L), ', '.join("'abcd'" if v == 'abcd' else '7' for v in L.values())))
    r03.stored(w)
    w.contents('t')
    ctx.cover('created')


def capacity(ctx, base):
    """the stored column takes the ciphertext of every text of the declared length"""
    n = ctx.int('n', 1, 255 if base == 'char' else 4095)
    ln = ctx.int('length', 0, 255 if base == 'char' else 4095)
    ctx.assume(ln <= n)
    ctx.note('declared', n)
    ctx.note('length', ln)
    t, cap = eu.G.md.get_type_and_len(base, n)
    b = (ln + 15) // 16             # see C03: AES in CBC mode, padded to 16 bytes, base64
    size = (b * 16 + 2) // 3 * 4
    ctx.check(cap >= size, 'the stored column is too short for the ciphertext of a text of the declared length')
    ctx.check(implies(t == 'char', cap <= 255), 'char column longer than 255')
    ctx.check(cap <= 65535, 'column longer than 65535')
    ctx.cover('fits')


def length(ctx, decl, n, enc, alphabet, kid=None):
    """a text of exactly the declared length is stored"""
    w = eu.World(ctx)
    ctx.check(not declare(w, 'create table t (id int, s %s)' % decl, encs(enc)), 'a supported table is refused')
    v = ctx.str('s', n, alphabet)
    ctx.note('s', v)
    ctx.known_region(kid, True) if kid else None
    try:
        w.both("insert into t (id, s) values (1, '{s}')", s=v)
    except Exception as e:      # noqa
        rc.control(e)
        ctx.check(False, 'a text of the declared length is refused')
    r03.stored(w)
    ctx.cover('fits')


SHAPES = [
    # DDL, encrypted columns, statements, other tables
    ('id int primary key, a int', 'a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({k}, {j})', 'insert into t (a) values ({i})']),
    ('id int primary key, a int', 'id a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({k}, {j})', 'insert into t (id, a) values (null, 1)']),
    ('id int, a int, primary key (id)', 'id:h a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({k}, null)']),
    ('id int, a int, primary key (id, a)', 'a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({i}, {k})', 'insert into t (id) values (5)']),
    ('a int, s varchar(5), primary key (s, a)', 's a:2', ["insert into t (a, s) values ({i}, '{x}')", "insert into t (a, s) values ({j}, '{y}')"]),
    ('id int primary key auto_increment, a int', 'a', ['insert into t (a) values ({i})', 'insert into t (a) values ({j})', 'insert into t (id, a) values (7, {j})', 'insert into t (a) values ({i})']),
    ('id int not null auto_increment, a int, primary key (id)', 'a', ['insert into t (a) values ({i})', 'insert into t (a) values ({j})']),
    ('id int unsigned not null auto_increment primary key, a int(11)', 'a', ['insert into t (a) values ({i})']),
    ('id int, a int not null', 'a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id) values ({i})', 'insert into t (id, a) values (1, null)', 'update t set a = null']),
    ('id int not null, a int null', 'a', ['insert into t (a) values ({i})', 'insert into t (id) values ({i})', 'insert into t (id, a) values (null, 1)']),
    ('id int, s varchar(6) not null, u char(4) not null', 's:fs', ["insert into t (id, s, u) values (1, '{x}', 'abc')", "insert into t (id, u) values (1, '{x}')", "insert into t (id, s) values (1, '{x}')"]),
    ('id int, a int default {i}', 'a:h', ['insert into t (id) values (1)', 'insert into t (id, a) values (2, {j})', 'insert into t (id, a) values (3, null)']),
    ('id int, n int default {i}', '', ['insert into t (id) values (1)', 'insert into t (id, n) values (2, {j})']),
    ('id int, a int not null default {i}', 'a:hs', ['insert into t (id) values (1)', 'insert into t (id, a) values (3, null)']),
    ('id int, a int default 0, n int default 0', 'a', ['insert into t (id) values ({i})']),
    ('id int, a int default -5, n int default -7', 'a', ['insert into t (id) values ({i})']),
    ('id int default {i}, a int default null, s varchar(5) default null, n int default null', 'a:h s:fs', ['insert into t (id) values (1)', "insert into t (a, s) values ({j}, '{y}')"]),
    ("id int, s varchar(9) default 'abc', w varchar(9) default 'abc'", 's:f', ['insert into t (id) values ({i})', "insert into t (id, s) values (2, '{y}')"]),
    ("id int, s varchar(9) default '', w char(9) default ''", 's:fs', ['insert into t (id) values ({i})']),
    ("id int, s varchar(9) default 'it''s', w varchar(9) default 'a\\\\b'", 's:s', ['insert into t (id) values ({i})']),
    ("id int, s varchar(9) default '5', w varchar(9) default 'null'", 's:2', ['insert into t (id) values ({i})']),
    ('id int, f float default 1.5, g float default 2.5', 'f:h', ['insert into t (id) values ({i})']),
    ('id int, d double default {g}, f float default {h}', 'd f:2', ['insert into t (id) values ({i})']),
    ('id int, d double default -0.5', 'd', ['insert into t (id) values ({i})']),
    ('id int unique, a int unique', 'a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({k}, {j})', 'insert into t (id, a) values (5, {k})']),
    ('a int unique not null, n int', 'a:h', ['insert into t (a, n) values ({i}, {j})', 'insert into t (a, n) values ({k}, {j})', 'insert into t (n) values ({k})']),
    ("id int comment 'number', a int comment 'it''s'", 'a', ['insert into t (id, a) values ({i}, {j})']),
    ('id bigint, b bigint(20) unsigned, c tinyint(1), d smallint, x decimal(10,2)', '', ['insert into t (id, b, c, d, x) values ({i}, 5, 1, 2, 3)']),
    ('id int, a int(11), c char(5), v varchar(255)', 'a c v', ["insert into t (id, a, c, v) values ({i}, {j}, '{x}', '{y}')"]),
    ('`id` int, `a` int', 'a', ['insert into t (id, a) values ({i}, {j})']),
    ('a int', 'a', ['insert into t (a) values ({i})', 'insert into t (a) values (null)']),
    ('ID INT, A INT NOT NULL', 'A', ['insert into t (ID, A) values ({i}, {j})']),
    ('id int, a int, f float, d double, s varchar(20), u char(12)', 'a:hs f:h d:s s:fs u:2', ["insert into t (id, a, f, d, s, u) values (1, {i}, {g}, {h}, '{x}', '{y}')"]),
    ('id int, a int, constraint k primary key (a)', 'a', ['insert into t (id, a) values ({i}, {j})', 'insert into t (id, a) values ({i}, {k})']),
]
TAILS = ['', ' engine = InnoDB', ' engine=InnoDB auto_increment=5', ' auto_increment = 7', ' engine = InnoDB default charset=utf8mb4', ' collate = utf8mb4_bin', " engine = InnoDB comment = 'rows'", ';', ' ENGINE=InnoDB AUTO_INCREMENT=3 COLLATE=utf8mb4_bin;']
FK = [
    # parent, child, encrypted in parent, in child, statements, must
    ('id int primary key', 'id int, p int, foreign key (p) references r (id)', '', '', True),
    ('id int primary key', 'id int, p int, foreign key (p) references r (id)', 'id', 'p', True),
    ('id int primary key, x int', 'p int, constraint k foreign key (p) references r (id)', 'id:h x:2', 'p:s', True),
    ('id int, x int, primary key (id, x)', 'p int, q int, foreign key (p, q) references r (id, x)', 'x', 'q', True),
    ('id int, x int, primary key (x, id)', 'p int, q int, foreign key (p, q) references r (x, id)', 'x id:2', 'p q:2', True),
    ('id int primary key', 'id int primary key, p int not null, foreign key (p) references r (id)', 'id', 'id p', True),
    ('id int primary key', 'id int, p int, foreign key (p) references r (id)', 'id', '', False),
    ('id int primary key', 'id int, p int, foreign key (p) references r (id)', '', 'p', False),
    ('id int primary key', 'id int, p int, foreign key (p) references r (id)', 'id:2', 'p', False),
    ('id int primary key', 'id int, p float, foreign key (p) references r (id)', 'id', 'p', False),
    ('id int', 'id int, p int, foreign key (p) references r (id)', 'id', 'p', False),
    ('id int primary key', 'id int, p int references r (id)', 'id', 'p', False),
    ('id int primary key', 'id int, p int references r (id)', '', '', False),
]
ANY = [
    ('id int, a int check (a > 0)', 'a', ['insert into t (id, a) values (1, {i})']),
    ('id int, n int check (n > 0)', 'a', ['insert into t (id, n) values (1, {i})']),
    ('id int, a int, unique key (a)', 'a', ['insert into t (id, a) values (1, {i})', 'insert into t (id, a) values (1, {j})']),
    ('id int, a int, unique (a)', 'a', ['insert into t (id, a) values (1, {i})', 'insert into t (id, a) values (1, {j})']),
    ('id int, a int, index (a)', 'a', ['insert into t (id, a) values (1, {i})']),
    ('id int, a int unsigned', 'a', ['insert into t (id, a) values (1, {i})']),
    ('id int, a bigint', 'a', ['insert into t (id, a) values (1, {i})']),
    ('id int, b text', 'b', ["insert into t (id, b) values (1, '{x}')"]),
    ('id int, a int auto_increment primary key', 'a', ['insert into t (id) values (1)']),
    ('id int, a int default (5)', 'a', ['insert into t (id) values (1)']),
    ('id int, a int default 1.5', 'a', ['insert into t (id) values (1)']),
    ("id int, a int default '5'", 'a', ['insert into t (id) values (1)']),
    ("id int, n int default '5'", 'a', ['insert into t (id) values (1)']),
    ("id int, s varchar(5) default 5", 's', ['insert into t (id) values (1)']),
    ('id int, f float default 3', 'f', ['insert into t (id) values (1)']),
    ('id int, a int, id int', 'a', []),
    ('id int, a int, primary key (a, b)', 'a', []),
    ('id int primary key, a int primary key', 'a', []),
    ('id int, s varchar', 's', []),
    ('id int, c char', 'c', ["insert into t (id, c) values (1, '{c}')"]),
    ('id int, a int, foreign key (a) references nowhere (x)', 'a', []),
    ('id int, c varchar(5) character set utf8', 'c', ["insert into t (id, c) values (1, '{x}')"]),
    ('id int, c varchar(5) collate utf8_bin', 'c', ["insert into t (id, c) values (1, '{x}')"]),
    ('id int, d datetime default current_timestamp', '', []),
]
ASCII, WIDE = [(0x20, 0x26), (0x28, 0x5b), (0x5d, 0x7e)], {2: [(0x80, 0x7ff)], 3: [(0x800, 0xd7ff)]}


def fk(ctx, parent, child, e1, e2, must):
    w = eu.World(ctx)
    ctx.check(not declare(w, 'create table r (%s)' % parent, encs(e1)), 'a supported table is refused')
    try:
        no = declare(w, 'create table t (%s)' % child, encs(e2))
    except minisql.SqlError:
        try:
            w.invoke('create table t (%s)' % child, encs(e2))
        except Exception as e:      # noqa
            rc.control(e)
            ctx.check('t' not in w.meta, 'a refused table is described in the metadata')
            ctx.cover('refused')
            return
        ctx.check(False, 'a table that the plaintext database refuses is created')
        return
    if no:
        ctx.check(not must, 'a supported foreign key is refused')
        ctx.check('t' not in w.meta, 'a refused table is described in the metadata')
        ctx.cover('refused')
        return
    structure(ctx, w, encs(e2))
    L = {k: rc.num(ctx, k) for k in 'ij'}
    pc, cc = w.plain.table('r').cols, w.plain.table('t').cols
    agree(ctx, w, 'insert into r (%s) values (%s)' % (', '.join(pc), ', '.join('{i}' for c in pc)), L)
    agree(ctx, w, 'insert into t (%s) values (%s)' % (', '.join(cc), ', '.join('{j}' for c in cc)), L)
    agree(ctx, w, 'insert into t (%s) values (%s)' % (', '.join(cc), ', '.join('{i}' for c in cc)), L)
    agree(ctx, w, 'delete from r where %s = {i}' % pc[0], L)
    agree(ctx, w, 'delete from t', L)
    agree(ctx, w, 'delete from r', L)
    w.contents('r')
    w.contents('t')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for i, (ddl, enc, stmts) in enumerate(SHAPES):
        for tail in TAILS if i in (0, 5) else ('',):
            out.append(Scenario('(%s)%s %s' % (ddl, tail, enc), table, dict(ddl='create table t (%s)%s' % (ddl, tail), enc=enc, stmts=stmts), 'the statements %s, all values' % '; '.join(stmts)))
    for ddl, enc, stmts in ANY:
        out.append(Scenario('any (%s) %s' % (ddl, enc), table, dict(ddl='create table t (%s)' % ddl, enc=enc, stmts=stmts, must=False), 'created as declared, or refused; all values'))
    for parent, child, e1, e2, must in FK:
        out.append(Scenario('r (%s) t (%s) %s/%s' % (parent, child, e1, e2), fk, dict(parent=parent, child=child, e1=e1, e2=e2, must=must), 'inserts and deletes in both tables, all values'))
    out.append(Scenario('options', options, dict(types={'id': 'int', 'a': 'int', 's': 'varchar(20)'}), 'every combination of encryption options of three columns', weight=4))
    out.append(Scenario('options float', options, dict(types={'f': 'float', 'd': 'double', 'u': 'char(12)'}), 'every combination of encryption options of three columns', weight=4))
    for base in ('char', 'varchar'):
        out.append(Scenario('capacity ' + base, capacity, dict(base=base), 'every declared length, every single-byte text of at most that length'))
    for decl, n in [('char(1)', 1), ('char(15)', 15), ('char(16)', 16), ('varchar(17)', 17), ('varchar(31)', 31), ('varchar(47)', 47), ('varchar(85)', 85), ('varchar(255)', 255)] + ([('varchar(%d)' % k, k) for k in range(1, 130)] if big else []):
        for enc in ('s', 's:s', 's:f') if n <= 83 else ('s', 's:s'):
            out.append(Scenario('full %s %s%s' % (decl, enc, ' again' if any(x.name == 'full %s %s' % (decl, enc) for x in out) else ''), length, dict(decl=decl, n=n, enc=enc, alphabet=ASCII), 'every ASCII text of %d characters' % n))
    out.append(Scenario('full varchar(200) s:f', length, dict(decl='varchar(200)', n=200, enc='s:f', alphabet=rc.eu.WORD, kid='K04'), 'every word of 200 letters'))
    for k in WIDE:
        out.append(Scenario('full varchar(16) wide %d' % k, length, dict(decl='varchar(16)', n=16, enc='s', alphabet=WIDE[k], kid='K03'), 'every text of 16 characters of %d bytes' % k))
    return out
