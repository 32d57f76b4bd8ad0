"""R03: an INSERT stores exactly the given rows, in every ciphertext of every column."""
from runner import Scenario
import eu
import minisql
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa

MUST_COVER = ('stored', 'refused', 'unchanged')
HOMO = [787659527, 1023624989]
SM4 = 'sm4-key'
# fuzzy search over numbers is C05's: the pieces of a symbolic number are not encodable
ALL = {'a': dict(arithmetic=True, homomorphic_key=HOMO, sm4=True, sm4_key=SM4), 'b': dict(key=rc.K2), 's': dict(fuzzy=True, sm4=True, sm4_key=SM4),
       'u': dict(key=rc.K2), 'f': dict(arithmetic=True, homomorphic_key=HOMO), 'd': dict(key=rc.K2, sm4=True, sm4_key=SM4)}
TYPES = dict(rc.TYPES)


def world(ctx, cols, suffix={}):
    w = eu.World(ctx)
    w.create('create table t (%s)' % ', '.join('%s %s%s' % (c, TYPES[c], suffix.get(c, '')) for c in cols), {c: eu.spec(**ALL[c]) for c in cols if c in ALL})
    return w


def fuzzy_pieces(ctx, key, text):
    return rc.eu.G.enc.FuzzyCipher(key).encrypt(text)


def stored(w, what='stored row'):
    """every cell the server stores stands for the value of the plaintext twin"""
    ctx, E = w.ctx, eu.G.enc
    meta = w.meta['t']
    got, want = w.server.db.table(meta['anonymous']).rows, w.plain.table('t').rows
    ctx.check(len(got) == len(want), what + ': number of rows')
    names = []
    for c, info in meta['columns'].items():
        names += [c] if info['plaintext'] else list(info['enc-cols'].values())
    ctx.check(sorted(names) == sorted(w.server.db.table(meta['anonymous']).cols), what + ': columns of the encrypted table')
    for g, p in zip(got, want):
        for c, info in meta['columns'].items():
            if info['plaintext']:
                same(ctx, g[c], p[c], what + ': plaintext column differs')
                continue
            key, typ = info['key'], info['type']
            for kind, name in info['enc-cols'].items():
                v, x = g[name], p[c]
                if v is None or x is None:
                    ctx.check(v is None and x is None, what + ': NULL in %s' % kind)
                    continue
                if kind == 'fuzzy':
                    t = E.encode(x, typ)
                    t = t if minisql.is_text(t) else text(t)
                    ctx.check(v == E.FuzzyCipher(key).encrypt(t), what + ': fuzzy pieces are not those of the value')
                    continue
                r = {'symmetric': lambda: E.AESCipher(key).decrypt(v), 'order-preserving': lambda: E.OPECipher(key).decrypt(v),
                     'arithmetic': lambda: E.HomomorphicCipher(info['homomorphic_key']).decrypt(v),
                     'sm4': lambda: E.SM4CipherBytes(info['sm4_key']).decrypt(v)}[kind]()
                same(ctx, E.decode(r, typ), x, what + ': %s ciphertext decrypts to another value' % kind)


def text(v):
    if rc.minisql.V.is_sym(v):
        from symex.instrument import to_text
        return to_text(v)
    return str(v)


def same(ctx, a, b, what):
    if a is None or b is None:
        ctx.check(a is None and b is None, what)
    elif minisql.is_text(a) != minisql.is_text(b):
        ctx.check(False, what)
    else:
        ctx.check(a == b, what)


def insert(ctx, cols, tpl, wlen, lits, suffix={}):
    w = world(ctx, cols, suffix)
    L = dict(lits(ctx))
    w.both(tpl, **L)
    stored(w)
    w.query('select %s from t' % ', '.join(cols), 'inserted rows are read back differently')
    ctx.cover('stored')


def maybe(ctx, cols, tpl, suffix={}):
    """refused without a trace, or stored as on the plaintext database"""
    w = world(ctx, cols, suffix)
    w.both('insert into t (%s) values (%s)' % (', '.join(cols), ', '.join(
        "'abc'" if TYPES[c][0] in 'vc' and c != 'w' else "'w'" if c == 'w' else '5' for c in cols)))
    L = rc.lits(ctx, tpl)
    before = len(w.plain.table('t').rows)
    try:
        no, r, p = rc.refused(w, tpl, **L)
    except minisql.SqlError:
        # not valid on the plaintext database either
        target, _ = w.render(tpl, L)
        try:
            w.invoke(target)
        except Exception as e:      # noqa
            import symex
            if isinstance(e, (symex.Unsupported, symex.core.Control)):
                raise
            ctx.check(len(w.server.db.table(w.meta['t']['anonymous']).rows) == before, 'refused insert left a row behind')
            ctx.cover('unchanged')
            return
        ctx.check(False, 'statement that the plaintext database refuses is accepted')
        return
    if no:
        ctx.cover('refused')
        del w.plain.table('t').rows[before:]
        stored(w, 'refused insert changed the table')
        return
    stored(w, 'unsupported insert')


NEG = dict(i=('i',), j=('j',))
INSERTS = [
    # name, columns, template
    ('all kinds', 'id a s', "insert into t (id, a, s) values ({i}, {j}, '{x}')"),
    ('other order', 'id a s', "insert into t (s, id, a) values ('{x}', {i}, {j})"),
    ('encrypted first', 'a s n', "insert into t (a, n, s) values ({j}, {i}, '{x}')"),
    ('plaintext between', 'n a w s', "insert into t (a, w, s, n) values ({j}, '{c}', '{x}', {i})"),
    ('subset', 'id a s n', 'insert into t (a) values ({j})'),
    ('subset text', 'id a s n', "insert into t (n, s) values ({i}, '{x}')"),
    ('plaintext only', 'id a s n', 'insert into t (n, id) values ({i}, {j})'),
    ('two keys', 'a b', 'insert into t (b, a) values ({i}, {j})'),
    ('two texts', 's u', "insert into t (u, s) values ('{x}', '{y}')"),
    ('empty text', 'id s u', "insert into t (id, s, u) values ({i}, '', '{x}')"),
    ('float', 'id f', 'insert into t (id, f) values ({i}, {g})'),
    ('double', 'id d', 'insert into t (d, id) values ({g}, {i})'),
    ('two floats', 'g f d', 'insert into t (g, f, d) values ({g}, {h}, {h})'),
    ('int into float', 'id f d', 'insert into t (id, f, d) values ({i}, 7, -7)'),
    ('null', 'id a s', 'insert into t (id, a, s) values ({i}, null, null)'),
    ('null first', 'a n', 'insert into t (a, n) values (null, {i})'),
    ('null float', 'id f d', 'insert into t (id, f, d) values ({i}, null, {g})'),
    ('null plaintext', 'id a n', 'insert into t (id, n, a) values ({i}, null, {j})'),
    ('negative', 'id a n', 'insert into t (a, n) values (-5, -6)'),
    ('zero', 'id a n f', 'insert into t (a, n, f) values (0, 0, 0)'),
    ('null text', 'id s', "insert into t (id, s) values ({i}, 'null')"),
    ('quoted names', 'id a s', "insert into `t` (`id`, `a`, `s`) values ({i}, {j}, '{x}')"),
    ('two rows', 'id a s', "insert into t (id, a, s) values ({i}, {j}, '{x}'), ({j}, {i}, '{y}')"),
    ('two rows other order', 's a n', "insert into t (s, n, a) values ('{x}', {i}, {j}), ('{y}', {j}, {i})"),
    ('two rows with null', 'id a s', "insert into t (id, a, s) values ({i}, null, '{x}'), ({j}, {i}, null)"),
    ('two rows null plaintext', 'a n w', "insert into t (a, n, w) values ({i}, null, '{c}'), (null, {i}, null)"),
    ('two rows negative', 'id a', 'insert into t (id, a) values (1, -5), (2, {i})'),
    ('two rows one column', 'a', 'insert into t (a) values ({i}), ({j})'),
    ('two rows one text column', 's', "insert into t (s) values ('{x}'), ('{y}')"),
    ('two rows null one column', 's', "insert into t (s) values ('{x}'), (null)"),
    ('three rows', 'id a', 'insert into t (id, a) values (1, {i}), (2, {j}), (3, {k})'),
    ('three rows negative', 'a s', "insert into t (a, s) values ({i}, 'abc'), (-1, '{x}'), ({j}, '')"),
    ('two rows floats', 'id f', 'insert into t (f, id) values ({g}, 1), ({h}, 2)'),
    ('two rows floats null', 'id d', 'insert into t (d, id) values ({g}, 1), (null, 2)'),
    ('two rows text null word', 's n', "insert into t (s, n) values ('null', 1), ('{x}', 2)"),
    ('equal names', 'a n', "insert into t (a, n) values ({i}, {i})"),
    ('text number', 'id s', "insert into t (id, s) values ({i}, '12')"),
]
SESSIONS = [('two statements', 'id a s', ["insert into t (id, a, s) values (1, {i}, '{x}')", "insert into t (s, id, a) values ('{y}', 2, {j})"]),
            ('subset then all', 'id a n', ['insert into t (a) values ({i})', 'insert into t (n, a, id) values ({j}, {i}, 3)']),
            ('null then value', 'id a s', ["insert into t (id, s) values (1, '{x}')", 'insert into t (id, a) values (2, {i})']),
            ('rows then row', 'a s', ["insert into t (a, s) values ({i}, '{x}'), ({j}, '{x}')", "insert into t (s, a) values ('{y}', {j})"])]
MAYBE = [
    ('no column list', 'id a', 'insert into t values ({i}, {j})'),
    ('no column list text', 'a s', "insert into t values ({j}, '{x}')"),
    ('no column list rows', 'id a', 'insert into t values ({i}, {j}), (1, 2)'),
    ('no column list plaintext', 'id n', 'insert into t values ({i}, {j})'),
    ('insert select', 'id a', 'insert into t (id, a) select id, a from t'),
    ('insert select plain', 'id n', 'insert into t (id, n) select n, id from t'),
    ('insert select mixed', 'a n', 'insert into t (a, n) select n, a from t'),
    ('insert select constants', 'id a', 'insert into t (id, a) select {i}, {j}'),
    ('expression', 'id a', 'insert into t (id, a) values ({i}, {j} + 1)'),
    ('expression plaintext', 'id n a', 'insert into t (id, n, a) values ({i}, {j} + 1, 2)'),
    ('expression rows', 'id a', 'insert into t (id, a) values (1, {j} + 1), (2, {i})'),
    ('function', 'id a', 'insert into t (id, a) values ({i}, abs(-5))'),
    ('column', 'id a', 'insert into t (id, a) values ({i}, id)'),
    ('column other', 'id a n', 'insert into t (id, a, n) values ({i}, 1, a)'),
    ('default', 'id a', 'insert into t (id, a) values ({i}, default)'),
    ('twice', 'a n', 'insert into t (a, n, a) values ({i}, {j}, {k})'),
    ('twice plaintext', 'a n', 'insert into t (n, n) values ({i}, {j})'),
    ('too few', 'id a', 'insert into t (id, a) values ({i})'),
    ('too many', 'id a', 'insert into t (id, a) values ({i}, {j}, {k})'),
    ('too many one column', 'a', 'insert into t (a) values ({i}, {j})'),
    ('ragged rows', 'id a', 'insert into t (id, a) values ({i}, {j}), ({k})'),
    ('ragged rows longer', 'id a', 'insert into t (id, a) values ({i}, {j}), ({k}, 1, 2)'),
    ('unknown column', 'id a', 'insert into t (id, zz) values ({i}, {j})'),
    ('unknown column rows', 'id a', 'insert into t (id, zz) values ({i}, {j}), (1, 2)'),
    ('unknown table', 'id a', 'insert into tt (id, a) values ({i}, {j})'),
    ('text into int', 'id a', "insert into t (id, a) values ({i}, '{x}')"),
    ('numeric text into int', 'id a', "insert into t (id, a) values ({i}, '25')"),
    ('padded text into int', 'id a', "insert into t (id, a) values ({i}, '007')"),
    ('numeric text into float', 'id f', "insert into t (id, f) values ({i}, '2.5')"),
    ('numeric text rows', 'id a', "insert into t (id, a) values ({i}, '25'), (1, '-3')"),
    ('numeric text into plaintext', 'n a', "insert into t (n, a) values ('25', {j})"),
    ('number into text', 'id u', 'insert into t (id, u) values ({i}, {j})'),
    ('number into fuzzy text', 'id s', 'insert into t (id, s) values ({i}, -25)'),
    ('float into text', 'id s', 'insert into t (id, s) values ({i}, 2.5)'),
    ('float into int', 'id a', 'insert into t (id, a) values ({i}, 2.0)'),
    ('boolean', 'id a', 'insert into t (id, a) values ({i}, true)'),
    ('boolean plaintext', 'n a', 'insert into t (n, a) values (true, {j})'),
    ('boolean rows', 'n a', 'insert into t (n, a) values (true, {j}), ({i}, false)'),
    ('boolean into text', 'id s', 'insert into t (id, s) values ({i}, true)'),
    ('minus minus', 'id a', 'insert into t (id, a) values ({i}, -(-5))'),
    ('minus float', 'id f', 'insert into t (id, f) values ({i}, -2.5)'),
    ('minus float rows', 'id f', 'insert into t (id, f) values ({i}, -2.5), (2, 1.5)'),
    ('double quotes', 'id s', 'insert into t (id, s) values ({i}, "{x}")'),
    ('value keyword', 'id a', 'insert into t (id, a) value ({i}, {j})'),
    ('on duplicate', 'id a', 'insert into t (id, a) values ({i}, {j}) on duplicate key update a = 1'),
    ('ignore', 'id a', 'insert ignore into t (id, a) values ({i}, {j})'),
    ('replace', 'id a', 'replace into t (id, a) values ({i}, {j})'),
    ('set syntax', 'id a', 'insert into t set id = {i}, a = {j}'),
    ('qualified', 'id a', 'insert into t (t.id, t.a) values ({i}, {j})'),
    ('database', 'id a', 'insert into points.t (id, a) values ({i}, {j})'),
    ('upper case', 'id a', 'INSERT INTO t (ID, A) VALUES ({i}, {j})'),
    ('upper case keywords', 'id a', 'INSERT INTO t (id, a) VALUES ({i}, {j});'),
    ('subquery', 'id a', 'insert into t (id, a) values ({i}, (select max(a) from t))'),
    ('null in expression', 'id a', 'insert into t (id, a) values ({i}, null + 1)'),
    ('select union', 'id a', 'insert into t (id, a) select {i}, {j} union all select 1, 2'),
    ('select union distinct', 'id a', 'insert into t (id, a) select {i}, {j} union select {i}, {j}'),
    ('select where', 'id a', 'insert into t (id, a) select {i}, {j} from t where a > 100'),
    ('select union from', 'id a', 'insert into t (id, a) select {i}, {j} union all select id, a from t'),
    ('values union', 'id a n', 'insert into t (id, a, n) values (1, {i}, n), (2, {j}, null)'),
    ('column rows', 'id a', 'insert into t (id, a) values (1, id), (2, null)'),
]
NOTNULL = [
    ('not null given', 'a s', "insert into t (a, s) values ({i}, '{x}')", dict(a=' not null', s=' not null')),
    ('not null refused', 'a s', "insert into t (a, s) values (null, '{x}')", dict(a=' not null')),
    ('not null missing', 'a s', "insert into t (s) values ('{x}')", dict(a=' not null')),
    ('not null rows', 'a s', "insert into t (a, s) values ({i}, '{x}'), (null, '{y}')", dict(a=' not null')),
    ('not null plaintext', 'a n', 'insert into t (a, n) values ({i}, null)', dict(n=' not null')),
    ('not null missing plaintext', 'a n', 'insert into t (a) values ({i})', dict(n=' not null')),
]
CAPACITY = [('varchar(3)', 3), ('varchar(5)', 5), ('char(4)', 4), ('char(1)', 1), ('varchar(16)', 16)]


def session(ctx, cols, tpls):
    w = world(ctx, cols)
    L = rc.lits(ctx, ' '.join(tpls))
    for t in tpls:
        w.both(t, **{k: v for k, v in L.items() if '{%s}' % k in t})
    stored(w)
    w.query('select %s from t' % ', '.join(cols), 'inserted rows are read back differently')
    ctx.cover('stored')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for name, cols, tpl in INSERTS:
        for wlen in (3, 1, 10) if big else (3,):
            if wlen == 3 or '{x}' in tpl:
                out.append(Scenario('insert %s%s' % (name, '' if wlen == 3 else ' words of %d' % wlen), plainly, dict(cols=cols, tpl=tpl, wlen=wlen), 'all values'))
    for name, tpl in [('row', "insert into t (u, id) values ('{x}', {i})"), ('rows', "insert into t (u, id) values ('{x}', 1), ('{y}', 2)"),
                      ('rows with null', "insert into t (u, id) values ('{x}', null), (null, 2)")]:
        for wlen in (1, 2, 3) if big else (2,):
            if wlen < 3 or name == 'row':
                out.append(Scenario('insert any %s of %d characters' % (name, wlen), plainly, dict(cols='id u', tpl=tpl, wlen=wlen, alphabet=rc.ANY),
                                    'texts of letters, digits, punctuation, Latin-1, CJK and emoji', weight=2))
    for name, cols, tpls in SESSIONS:
        out.append(Scenario('session ' + name, session, dict(cols=cols.split(), tpls=tpls), 'all values', weight=2))
    for name, cols, tpl in MAYBE:
        out.append(Scenario('maybe ' + name, maybe, dict(cols=cols.split(), tpl=tpl), 'one row before, all values'))
    for name, cols, tpl, suffix in NOTNULL:
        out.append(Scenario('maybe ' + name, maybe, dict(cols=cols.split(), tpl=tpl, suffix=suffix), 'one row before, all values'))
    return out


def plainly(ctx, cols, tpl, wlen, alphabet=None):
    insert(ctx, cols.split(), tpl, wlen, lambda c: rc.lits(c, tpl, wlen, alphabet))
