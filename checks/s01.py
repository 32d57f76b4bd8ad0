"""S01: an expression means the same to the server after it has been parsed and formatted."""
from runner import Scenario
import eu
import minisql
import symex

ASSUMPTIONS = ['the expression is evaluated before and after by the same MySQL subset (lib/minisql.py: MySQL operator grammar, three-valued logic, integer arithmetic)',
               'operands are small integers or NULL; the parser and formatter run on the concrete text of each shape']
MUST_COVER = ('value', 'null', 'accepted')

INF = {'add': '%s + %s', 'sub': '%s - %s', 'mul': '%s * %s', 'mod': '%s %% %s', 'div': '%s / %s', 'eq': '%s = %s', 'ne': '%s <> %s', 'lt': '%s < %s', 'ge': '%s >= %s', 'le': '%s <= %s', 'gt': '%s > %s', 'nq': '%s != %s',
       'and': '%s and %s', 'or': '%s or %s', 'oror': '%s || %s', 'andand': '%s && %s',
       'like': '%s like %s', 'nlike': '%s not like %s', 'in': '%s in (%s, 2)', 'in1': '%s in (%s)', 'nin': '%s not in (%s, 2)',
       'btw': '%s between %s and 2', 'btw2': '%s between -1 and %s', 'nbtw': '%s not between %s and 2',
       'isnull': '%s is null', 'notnull': '%s is not null', 'istrue': '%s is true', 'nottrue': '%s is not true', 'isfalse': '%s is false', 'notfalse': '%s is not false',
       'not': 'not %s', 'neg': '-%s', 'band': '%s & %s', 'bor': '%s | %s', 'bnot': '~%s'}
FUN = {'case': 'case when %s then %s else 7 end', 'case2': 'case when c then %s when %s then 5 end', 'casev': 'case %s when %s then 7 else c end', 'if': 'if(%s, %s, 7)', 'coalesce': 'coalesce(%s, %s)',
       'ifnull': 'ifnull(%s, %s)', 'abs': 'abs(%s)', 'nullif': 'nullif(%s, %s)', 'least': 'least(%s, %s)', 'concat': 'concat(%s, %s)'}
OPS = dict(INF, **FUN)
# the server understands them, EulerDB need not: refused or right
OTHER = {'idiv': '%s div %s', 'modw': '%s mod %s', 'xor': '%s xor %s', 'bxor': '%s ^ %s', 'shl': '%s << %s', 'excl': '!%s', 'nse': '%s <=> %s', 'isunk': '%s is unknown', 'rlike': '%s rlike %s',
         'row': '(%s, 1) = (%s, 1)', 'eqnull': '%s = null', 'nenull': '%s <> null', 'eqtrue': '%s = true', 'insub': '%s in (select %s from t)', 'addsel': '%s + (select %s from t)', 'exists': 'exists (select %s from t)', 'max': '(select max(%s) from t) + %s'}


assert not set(OPS) & set(OTHER)

# one operator per level of precedence
QUICK = ['sub', 'mul', 'mod', 'eq', 'lt', 'and', 'or', 'oror', 'like', 'in', 'btw', 'isnull', 'nottrue', 'not', 'neg', 'bor', 'bnot', 'case', 'coalesce']


def setup(symbolic):
    eu.install(symbolic)


def arity(t):
    return t.replace('%%', '').count('%s')


def shape(outer, pos, inner, par):
    ops = dict(OPS, **OTHER)
    o, i = ops[outer], ops[inner]
    e = i % tuple('ab'[:arity(i)])
    if par:
        e = '(%s)' % e
    rest = ['c', 'b']
    return o % tuple(e if k == pos else rest.pop(0) for k in range(arity(o)))


def reformat(text):
    import sql_parsing
    return sql_parsing.format(sql_parsing.parse_mysql(text), ansi_quotes=False)


def database(ctx, nulls):
    db = minisql.MiniDB()
    db.execute('create table t (a int, b int, c int)')
    row = {}
    for x in 'abc':
        row[x] = None if x in nulls else ctx.int(x, -2, 3)
        ctx.note(x, row[x])
    db.table('t').rows.append(row)
    return db


def equal(ctx, db, text, what, must=True):
    """-> False when the statement is refused"""
    ctx.note('sql', text)
    try:
        p = db.execute(text)
    except minisql.SqlError:
        return None         # not a statement of MySQL
    try:
        f = reformat(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(not must, what + ' is refused')
        return False
    ctx.note('formatted', f)
    try:
        r = db.execute(f)
    except minisql.SqlError as e:
        ctx.check(not must, what + ' is formatted to something the server refuses')
        return False
    ctx.check(len(p) == len(r), what + ' selects other rows')
    for a, b in zip(p, r):
        ctx.check(len(a) == len(b), what + ' selects other columns')
        for x, y in zip(a, b):
            ctx.cover('null' if x is None else 'value')
            if x is None or y is None:
                ctx.check(x is None and y is None, what + ' has another value (NULL)')
            else:
                ctx.check(minisql.is_text(x) == minisql.is_text(y) and x == y, what + ' has another value')
    return True


def expr(ctx, outer, pos, inner, par, nulls, must=True):
    e = shape(outer, pos, inner, par)
    if equal(ctx, database(ctx, nulls), 'select %s from t' % e, 'an expression', must):
        ctx.cover('accepted')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    names = list(OPS)
    inner = names if big else QUICK
    for o in names:
        for p in range(arity(OPS[o])):
            for i in inner:
                for par in (False, True):
                    if not par and i in FUN and o in FUN:
                        continue
                    if par and o in FUN:
                        continue
                    variants = [''] + (['a', 'b', 'c', 'ab'] if big else [])
                    for nulls in variants:
                        out.append(Scenario('%s nulls=%s' % (shape(o, p, i, par), nulls), expr, dict(outer=o, pos=p, inner=i, par=par, nulls=nulls), 'all operands in -2..3'))
    for o in OTHER:
        for p in range(arity(OTHER[o])):
            for i in ('add', 'eq', 'or', 'not', 'neg', 'case'):
                for par in (False, True):
                    for nulls in ('', 'a'):
                        out.append(Scenario('%s nulls=%s' % (shape(o, p, i, par), nulls), expr, dict(outer=o, pos=p, inner=i, par=par, nulls=nulls, must=False), 'all operands in -2..3'))
    return list({s.name: s for s in out}.values())
