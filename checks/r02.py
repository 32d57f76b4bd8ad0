"""R02: the database server never gets plaintext of encrypted columns: what is sent depends on their values only through ciphertexts."""
import re
from runner import Scenario
import eu
import symex
import cryptostub
import r_common as rc
import r01
import r03
import r04
import r05
import r07
import r10
import ope_common as oc
from symex import sx_and, iff

ASSUMPTIONS = [
    'ciphers are ideal: the two runs that are compared get the same ciphertexts, whatever the values are, as long as the pattern of equal values '
    '(text ciphers) and the order of values (order-preserving cipher) is the same and texts have the same length',
    'the SQL parser runs on the real text with marker constants that are replaced by symbolic values in its output',
]
MUST_COVER = ('sent', 'refused', 'fixed')
PLAIN = ('id', 'n', 'w', 'g')
NAME = dict(a='income', b='level', s='surname', u='uname', f='factor', d='dose', t='people')
REAL = {}


class Lock:
    """the same ciphertexts in the second run as in the first"""

    def __init__(self, ctx):
        self.ctx, self.calls, self.second, self.at = ctx, [], False, 0

    def __call__(self, kind, key, x, real):
        if not self.second:
            if kind in ('ope', 'paillier'):
                # an arbitrary number: it is not that of the value
                r = self.ctx.int('cipher%d' % len(self.calls), 1, 2 ** 63 - 1)
                r = r if kind == 'ope' else rc.minisql.V.SymStr.make([rc.minisql.V.NumAtom(r)]) if self.ctx.symbolic else str(r)
            else:
                r = real(x)
            self.calls.append((kind, key, x, r))
            return r
        ok = self.at < len(self.calls) and self.calls[self.at][:2] == (kind, key)
        i = self.at
        self.at += 1
        self.pairs.append(x)
        if not ok:
            # other values are encrypted, or otherwise: seen below if it reaches the server
            return real(x)
        for j in range(i):
            if self.calls[j][:2] != (kind, key) or kind == 'paillier':
                continue
            x0, y0, x1, y1 = self.calls[i][2], self.calls[j][2], self.pairs[i], self.pairs[j]
            if rc.minisql.is_text(x0) != rc.minisql.is_text(y0) or rc.minisql.is_text(x1) != rc.minisql.is_text(y1):
                continue
            self.ctx.assume(iff(x0 == y0, x1 == y1))
            if kind == 'ope':
                self.ctx.assume(iff(x0 < y0, x1 < y1))
        return self.calls[i][3]

    def restart(self):
        self.second, self.at, self.pairs = True, 0, []


LOCK = [None]


def setup(symbolic):
    eu.install(symbolic)
    E = eu.G.enc
    import scheduler.crypto.ope.hgd
    import scheduler.crypto.ope.ope as ope
    oc.hgd = scheduler.crypto.ope.hgd
    REAL['OPE'] = ope.OPE

    def wrap(cls, kind):
        real = cls.encrypt

        def encrypt(self, x, *a):
            if LOCK[0] is None:
                return real(self, x, *a)
            key = (getattr(self, 'key', None) or getattr(self, 'n', None), a)
            return LOCK[0](kind, key, x, lambda v: real(self, v, *a))
        cls.encrypt = encrypt
    wrap(E.AESCipher, 'aes')
    wrap(E.SM4CipherBytes, 'sm4')
    if E.OPE is REAL['OPE']:
        E.OPE = type('OPE', (E.OPE,), {})
    wrap(E.OPE, 'ope')
    wrap(E.HomomorphicCipher, 'paillier')


def rename(tpl):
    out = []
    for part in re.split(r"(\{\w+\}|'[^']*'|\"[^\"]*\")", tpl):
        if part[:1] not in ('{', "'", '"'):
            part = re.sub(r'\b(%s)\b' % '|'.join(NAME), lambda m: NAME[m.group(1)], part)
        out.append(part)
    return ''.join(out)


def publics(tpl):
    """constants that are compared with or stored in plaintext columns, or with none"""
    out = set()
    m = re.match(r'(?i)insert into \S+ \(([^)]*)\) values? (.*)$', tpl.replace('`', ''))
    if m:
        cols = [c.strip() for c in m.group(1).split(',')]
        for row in re.findall(r'\(([^()]*)\)', m.group(2)):
            for c, v in zip(cols, row.split(',')):
                if c in PLAIN:
                    out |= set(re.findall(r'\{(\w)\}', v))
        return out
    m = re.match(r'insert into \S+ \(([^)]*)\) select ([^()]*)$', tpl)
    if m:
        for row in m.group(2).split('select'):
            for c, v in zip(m.group(1).split(', '), row.split(',')):
                if c in PLAIN:
                    out |= set(re.findall(r'\{(\w)\}', v))
    for c in PLAIN:
        for m in re.finditer(r'\b%s (=|<>|!=|>|<|>=|<=|<=>|like|[-+*/%%]|\+ id [<>]|\+ a [<>]) \'?\{(\w)\}' % c, tpl):
            out.add(m.group(2))
        for m in re.finditer(r'\b%s (?:not )?(?:in \([^)]*\)|between \S+ and \S+)' % c, tpl):
            out |= set(re.findall(r'\{(\w)\}', m.group(0)))
    return out


TYPES = r03.TYPES


def world(ctx, cols):
    w = eu.World(ctx)
    enc = {NAME[c]: eu.spec(**r03.ALL[c]) for c in cols if c in r03.ALL}
    w.invoke('create table people (%s)' % ', '.join('%s %s' % (NAME.get(c, c), TYPES[c]) for c in cols), enc)
    w.retag()
    return w


def send(ctx, fn):
    """-> statements the server gets while fn runs, whether it is refused"""
    del eu.G.sent[:]
    try:
        fn()
        no = False
    except Exception as e:      # noqa
        rc.control(e)
        no = True
    return [s for db, s in eu.G.sent if db != eu.G.meta_name], no


def compare(ctx, one, two, names, keys):
    (t1, no1), (t2, no2) = one, two
    ctx.check(no1 == no2 and len(t1) == len(t2), 'whether a statement is sent depends on the values of encrypted columns')
    if not ctx.symbolic:
        ctx.note('sent', t1)
        ctx.note('sent for the other values', t2)
    for a, b in zip(t1, t2):
        ctx.check(a == b, 'the statement sent to the server depends on values of encrypted columns')
        low = fixed(a).lower()
        for n in names:
            # long names are not part of longer ones either
            ctx.check(not re.search((r'(?<![a-z0-9_])%s(?![a-z0-9_])' if len(n) < 5 else '%s') % re.escape(n), low), 'the name of a table or of an encrypted column is sent to the server')
        for k in keys:
            ctx.check(k.lower() not in low, 'a key is sent to the server')
    ctx.cover('refused' if no1 else 'several' if len(t1) > 1 else 'sent')


def fixed(t):
    if isinstance(t, str):
        return t
    return ''.join(chr(x) if isinstance(x, int) else '\x00' for x in t.items)


KEYS = [rc.K1, rc.K2, r03.SM4] + [str(k) for k in r03.HOMO]


def twice(ctx, tpl, lens, alphabet=eu.WORD):
    """the same statement with two choices of the constants of encrypted columns"""
    pub = publics(tpl)
    cols = ['id'] + [c for c in rc.names(tpl) if c != 'id']
    L1 = rc.lits(ctx, tpl, lens, alphabet)
    L2 = dict(L1)
    for k in L1:
        if k not in pub:
            v = L1[k]
            L2[k] = (rc.num(ctx, k + '2') if k in 'ijk' else rc.eighth(ctx, k + '2') if k in 'gh' else rc.word(ctx, k + '2', 1 if k == 'c' else lens, alphabet))
    text = rename(tpl)
    lock = Lock(ctx)
    res = []
    for L in (L1, L2):
        LOCK[0] = None
        w = world(ctx, cols)
        target, _ = w.render(text, {k: v for k, v in L.items() if '{%s}' % k in text})
        LOCK[0] = lock
        res.append(send(ctx, lambda: w.invoke(target)))
        lock.restart()
    LOCK[0] = None
    compare(ctx, res[0], res[1], [NAME[c] for c in cols if c in NAME] + ['people'], KEYS)


def create(ctx, decl, opts, lens):
    """defaults of encrypted columns in CREATE TABLE"""
    L1 = rc.lits(ctx, decl, lens)
    pub = set(re.findall(r'\bn int default \{(\w)\}', decl))
    L2 = {k: v if k in pub else rc.num(ctx, k + '2') if k in 'ijk' else rc.eighth(ctx, k + '2') if k in 'gh' else rc.word(ctx, k + '2', lens) for k, v in L1.items()}
    import r06
    enc = {NAME[c]: o for c, o in r06.encs(opts).items()}
    lock = Lock(ctx)
    res = []
    for L in (L1, L2):
        LOCK[0] = None
        w = eu.World(ctx)
        target, _ = w.render(rename('create table t (%s)' % decl), L)
        LOCK[0] = lock
        res.append(send(ctx, lambda: w.invoke(target, enc)))
        lock.restart()
    LOCK[0] = None
    compare(ctx, res[0], res[1], list(enc) + ['people'], KEYS)


def other(ctx, stmts, opts):
    """names and keys in statements without constants"""
    import r06
    w = eu.World(ctx)
    x = rc.num(ctx, 'x')
    res, names = [], {'people', 'visits'}
    for s in stmts:
        s, _, o = s.partition(' -- ')
        enc = {NAME.get(c, c): e for c, e in r06.encs(o).items()} if o else None
        names |= set(enc or {})
        LOCK[0] = None
        res.append(send(ctx, lambda: w.invoke(rename(s), enc)))
        w.retag()
    ctx.note('x', x)
    for r in res:
        compare(ctx, r, r, names, KEYS)
    ctx.cover('fixed')


CREATES = [('id int, a int default {i}', 'a'), ('id int, a int default {i}', 'a:hs'), ("id int, s varchar(9) default '{x}'", 's:f'), ("id int, s varchar(9) default '{x}'", 's:s2'), ('id int, f float default {g}', 'f:h'),
           ("n int default {j}, a int not null default {i}, s char(5) default '{x}'", 'a s'), ('d double default {g}, a int default {i}', 'a:2 d:s'), ("id int, s varchar(9) default '{x}' comment 'about'", 's:fs')]
OTHER = [
    ['create table t (id int, a int, s varchar(9), primary key (a)) -- a s:f', "alter table t add index k (s)", 'alter table t add unique (a)', 'drop table t'],
    ['create table t (id int, a int primary key) -- a:h', 'create table visits (id int, b int, foreign key (b) references t (a)) -- b', 'select visits.b from t join visits on t.a = visits.b', 'select * from visits', 'drop table visits'],
    ["create table t (id int, a int comment 'yearly income', s varchar(9) comment 'surname') comment = 'people' -- a s", 'select * from t', 'select max(a) from t', 'select a as x, s as y from t', 'select distinct s from t'],
    ['create table t (id int, a int, n int) -- a:h', 'select sum(a) from t', 'select avg(a) from t', 'select sum(a) from t where n = 1', 'select n from t order by a desc', 'delete from t where a is null'],
    ['create table t (id int, a int, n int) -- a', 'select x.a from (select a, n from t) x', 'select t.a from t left join t as x on t.a = x.a', 'select count(a) from t', 'select n, max(a) from t group by n having n > 1', 'alter table t add primary key (a)', 'alter table t drop primary key'],
]


def identity(ctx, base):
    """the order-preserving ciphertext of a number is not that number (production key, ranges and sampler contract)"""
    LOCK[0] = None
    cryptostub.start(ctx, keystream=True)
    oc.stub_rhyper(ctx)
    x = ctx.int('x', base, base + 3)
    ctx.note('x', x)
    c = REAL['OPE'](b'k' * 32).encrypt(x)
    ctx.note('sent', c)
    ctx.known_region('K05')
    ctx.check(c != x, 'the order-preserving ciphertext of a number is that number')


QUALIFIED = ['select t.id from t where n + t.n > {i}', 'select id from t where t.a = {i}', 'select id from t where t.n > {i}', 'select id from t where a = {i} and t.n = 1', 'select t.n, max(a) from t group by t.n', 'select n from t group by n having t.n > 1',
             'select n, count(*) from t group by n having t.a > 1', 'update t set n = t.n + 1', 'update t set t.n = 1', 'delete from t where t.a = {i}', 'insert into t (id, n) values (1, t.n)', 'select t.s from t order by t.s', 'select x.s from t x', 'select t.s from t x',
             'select x.s from t as x where x.s = \'{x}\'', 'select sum(t.a) from t', 'select distinct t.s from t', 'select t.* from t', 'update t set a = t.a', 'update t as x set x.a = {i}', 'delete x from t x where x.a = {i}', 'select count(t.id) from t',
             'select t.a + t.a from t', 'select upper(t.s) from t', 'select t.a as b from t', 'select (select max(t.a) from t) from t', 'select id from t where a in (select t.a from t)', 'select x.a from (select t.a from t) x', 'insert into t (id, a) select t.id, t.a from t',
             'select id from t where exists (select t.a from t where t.a = {i})', 'select id from t union select a from t', 'select case when t.a > {i} then 1 else 0 end from t', 'select if(a > {i}, 1, 0) from t', 'select id from t limit 1', 'select id from t where a > {i} limit 1',
             'select concat(s, \'{x}\') from t', 'select a > {i} from t', 'select n from t order by a = {i}', 'select n from t group by a', 'select n from t group by a > {i}', 'select n from t group by n order by max(a)', 
             'replace into t (id, a) values (1, {i})', 'insert ignore into t (id, a) values (1, {i})', 'insert into t (id, a) values (1, {i}) on duplicate key update a = {j}', 'insert into t set id = 1, a = {i}', 'insert into t values (1, {i})', 'truncate table t', 'show tables',
             'describe t', 'show create table t', 'create index k on t (a)', 'create view v as select a from t', 'explain select a from t where a = {i}', 'call p({i})', 'set @x = {i}', 'lock tables t write', 'start transaction', 'commit', 'rename table t to t2', 'drop table if exists t',
             'alter table t drop column a', 'alter table t add column b int default {i}', 'alter table t modify a bigint', 'alter table t change a c int', 'alter table t rename to t2', 'alter table t comment = \'{x}\'', 'with x as (select a from t where a = {i}) select a from x',
             'select a from t for update', "load data infile '{x}' into table t", 'select a from t into outfile \'x\'', 'grant select on t to u', 'analyze table t', 'select database()', 'select last_insert_id()']


def scenarios(tier):
    big = tier != 'quick'
    out, seen = [], set()

    def add(tpl):
        if tpl in seen:
            return
        seen.add(tpl)
        for n in ((2, 5, 20) if big else (3,)) if re.search(r'\{[xyz]\}', tpl) else (3,):
            out.append(Scenario('%s%s' % (tpl, '' if n == 3 else ' (%d)' % n), twice, dict(tpl=tpl, lens=n), 'all pairs of values, texts of %d letters' % n))
    for _, _, t in r03.INSERTS + r03.MAYBE:
        add(t)
    for t in r04.UPDATES + r04.DELETES + r04.MAYBE:
        add(t)
    for i, t in enumerate(r01.ATOMS + r01.COMBOS + r01.MAYBE):
        add('select id from t where ' + t)
        if big or i % 4 == 0:
            add('select max(a), count(*) from t where ' + t)
    for t in r07.YES + r07.ANY + ['select %s from t' % c for c in r05.ONE + r05.ONE_ANY]:
        add(t)
    for t in QUALIFIED + [t for t in r10.YES + r10.ANY if not re.search(r'u2|\bd\b', t)]:
        add(t)
    for d, o in CREATES:
        out.append(Scenario('create (%s) %s' % (d, o), create, dict(decl=d, opts=o, lens=3), 'all pairs of defaults'))
    for b in (0, 1000, -2 ** 40) + ((12345678, -7, 2 ** 62, -2 ** 63) if big else ()):
        out.append(Scenario('ciphertext of %d..%d' % (b, b + 3), identity, dict(base=b), 'four numbers'))
    for s in OTHER:
        out.append(Scenario('; '.join(s), other, dict(stmts=[x for x in s], opts=''), 'names and keys'))
    return out
