"""R01: a WHERE condition selects the same rows as on the plaintext database."""
from runner import Scenario
import r_common as rc
from r_common import setup, ASSUMPTIONS  # noqa

MUST_COVER = ('some', 'none', 'refused')

ATOMS = [
    'a = {i}', 'a <> {i}', 'a != {i}', 'a > {i}', 'a < {i}', 'a >= {i}', 'a <= {i}', 'a in ({i}, {j})', 'a in ({i})', 'a not in ({i}, {j})',
    'a between {i} and {j}', 'a not between {i} and {j}', 'a is null', 'a is not null', 'a = 0', 'a = -1', 'a > -1', 'a in (0, -1)', 'b < {i}', 'b = {i}',
    "s = '{x}'", "s <> '{x}'", "s in ('{x}', '{y}')", "s in ('{x}')", "s not in ('{x}', '{y}')", 's is null', "s = ''", "u = '{x}'", "u <> '{x}'",
    "u in ('{x}', 'abc')", 's = "{x}"',
    'f = {g}', 'f <> {g}', 'f > {g}', 'f < {g}', 'f >= {g}', 'f <= {g}', 'f = 2', 'f > 2', 'f between {g} and {h}', 'f in ({g}, 1)', 'd = {g}', 'd > {g}', 'd <= {g}',
    'd < 3', 'n = {i}', 'n > {i}', 'n <> {i}', 'n <= {i}', 'n in ({i}, {j})', 'n between {i} and {j}', 'n is null', "w = '{c}'", "w <> '{c}'", "w like '{c}%'",
    'g > {g}', 'n not in ({i}, {j})', 'n not between {i} and {j}',
]
COMBOS = [
    "a > {i} and s = '{x}'", "a > {i} or s = '{x}'", 'not (a = {i})', 'not a > {i}', 'a > {i} and a < {j}', 'a = {i} or a = {j} or n = {k}',
    "(a = {i} or n = {j}) and s <> '{x}'", "a = {i} or n = {j} and s <> '{x}'", "not (a > {i} or s = '{x}')", 'a >= {i} and f < {g}',
    'not (n = {i} and a = {j})', 'f > {g} or n > {i}', 'a between {i} and {j} and n <> {k}', 'a in ({i}, {j}) or b > {k}', 'n > {i} and w = \'{c}\'',
    'a is null or n > {i}', 'not (a is null) and a < {i}', 'b > {i} and a > {i}', '(a > {i} and n < {j}) or (a < {i} and n > {j})',
    'a > {i} and (n = {j} or (a < {k} and not n = {j}))', "u = '{x}' and s = '{x}'", 'not (a between {i} and {j})', 'd > {g} and f <= {g}', 'n = {i} and a = {i}',
]
# not supported today: must be refused, or answered exactly
MAYBE = ['a = n', 'a = b', 'a = a', '{i} = a', '{i} < a', "'{x}' = s", 'a + 1 = {i}', 'n + 1 > {i}', 't.a = {i}', 't.n = {i}', "s > '{x}'", 'a > n', 'a > b', 'n = a', 'n > a',
         'f > a', 'a = 2.5', 'a < 2.5', 'a > 2.5', 'a = 3.0', "u like '%{x}%'", "s rlike '{x}'", 'a = (select max(n) from t)', 'a = true', 'n = true',
         'n + a > {i}', 'abs(a) = {i}', 'a > {i} and n', 'a', 'not a', '(a, n) = ({i}, {j})', "s not rlike '{x}'", 'coalesce(a, 1) = {i}', 'n in (a, 1)', 'n in (select a from t)', 'a in (select n from t)',
         'n between a and {i}', 'case when a = {i} then n else 0 end = 1', "s like '{c}%'", 'a like 5', "f = '2'", "a = '5'", "a > '5'", 'a <=> {i}']

# conditions one after another on the same connection: nothing of a statement may linger in the next one
SEQ = [("s = 'aB'", "s = 'ab'", "s = 'AB'"), ("s = 'a b'", "s = 'a  b'", "s = 'ab'"), ("s = 'ab '", "s = 'ab'"), ('n = 1', 'n = 11', 'n = 1'), ('a > 5', 'a > 50', 'a > -5'), ('a = 1', 'n = 1', 'b = 1'), ("s in ('a', 'B')", "s in ('a', 'b')"),
       ('a = 1 and n = 2', 'a = 2 and n = 1'), ('not a = 1', 'a = 1'), ("w like 'A%'", "w like 'a%'"), ("s = 'x'", "s <> 'x'"), ('a between 1 and 5', 'a between 5 and 1'), ("s = 'n'", 's is null'), ("s = '1'", 'a = 1'), ("s = 'a' or u = 'b'", "s = 'b' or u = 'a'"), ('a > 1', 'a >= 1', 'a < 1'), ('f > 1', 'f > 1.5')]
MIXED = [(0x20, 0x20), (0x41, 0x42), (0x61, 0x62), (0x6e, 0x6e), (0x78, 0x78)]


def sequence(ctx, tpls):
    need = sorted(set(c for t in tpls for c in rc.names(t)))
    w, _ = rc.fill(ctx, need, 1, 1, alphabet=MIXED, wlen=lambda name: ctx.choice('length of ' + name, range(0, 5)))
    for t in tpls:
        try:
            no, r, p = rc.refused(w, 'select id from t where ' + t)
        except rc.minisql.SqlError:
            ctx.done()
        if no:
            ctx.cover('refused')
            ctx.check(False, 'a supported condition is refused')
            continue
        ctx.cover('some' if p else 'none')
        w.same(p, r, 'WHERE after other statements selects other rows than on the plaintext database')


def where(ctx, tpl, rows, nulls):
    w, _ = rc.fill(ctx, rc.names(tpl), rows, nulls)
    p = w.query('select id from t where ' + tpl, 'WHERE selects other rows than on the plaintext database', **rc.lits(ctx, tpl))
    ctx.cover('some' if p else 'none')


def maybe(ctx, tpl, rows):
    w, _ = rc.fill(ctx, rc.names(tpl), rows)
    L = rc.lits(ctx, tpl)
    try:
        no, r, p = rc.refused(w, 'select id from t where ' + tpl, **L)
    except rc.minisql.SqlError:
        ctx.done()          # not valid on the plaintext database either
    if no:
        ctx.cover('refused')
        ctx.check(True, 'unsupported condition answered with wrong rows instead of an error')
        return
    w.same(p, r, 'unsupported condition answered with wrong rows instead of an error')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for t in ATOMS:
        out.append(Scenario('atom ' + t, where, dict(tpl=t, rows=2, nulls=0), '2 rows, all values'))
        if big or t in ATOMS[::3]:
            out.append(Scenario('null ' + t, where, dict(tpl=t, rows=1, nulls=1), '1 row plus a row of NULLs'))
        if big:
            out.append(Scenario('three ' + t, where, dict(tpl=t, rows=3, nulls=0), '3 rows, all values'))
    for t in COMBOS:
        out.append(Scenario('combo ' + t, where, dict(tpl=t, rows=2 if big else 1, nulls=0), 'all values', weight=3))
        if big:
            out.append(Scenario('combo null ' + t, where, dict(tpl=t, rows=1, nulls=1), 'a row of NULLs', weight=3))
    for t in MAYBE:
        out.append(Scenario('maybe ' + t, maybe, dict(tpl=t, rows=1), '1 row, all values'))
    for q in SEQ:
        out.append(Scenario('sequence ' + ' ; '.join(q), sequence, dict(tpls=q), 'one row of all values (texts up to 4 characters) and a row of NULLs'))
    return out
