"""S02: constants, quoted names, comments, blanks and letter case: the server gets the tokens that were written."""
from runner import Scenario
import eu
import minisql
import symex
from fractions import Fraction

SKIP = ('imports', 'eulerdb_c')     # the parser itself is executed symbolically
ASSUMPTIONS = ['MySQL reads text constants with backslash escapes and doubled quotes (sql_mode without ANSI_QUOTES and NO_BACKSLASH_ESCAPES)']
MUST_COVER = ('value', 'escaped', 'number', 'name', 'comment', 'layout')


def setup(symbolic):
    eu.install(False)
    eu.SYM[0] = symbolic


def reformat(text):
    import sql_parsing
    j = sql_parsing.parse_mysql(text)
    return j, sql_parsing.format(j, ansi_quotes=False)


def tok(text):
    try:
        return minisql.tokens(text)
    except minisql.SqlError:
        return None


TEXTS = {"'": "select '%s' from t", '"': 'select "%s" from t', 'where': "select a from t where s = '%s' and b > 1", 'in': "select a from t where s in ('a', '%s')",
         'insert': "insert into t (a, s) values (1, '%s')", 'rows': "insert into t (s) values ('%s'), ('b')", 'update': "update t set s = '%s', b = 2 where a = 1", 'like': "delete from t where s like '%s'",
         'fun': "select concat('%s', s) from t", 'case': "select case when s = '%s' then 'x' end from t", 'two': "select '%s', 'b''c' from t"}


def find(j, mark):
    """the constant in the parsed statement"""
    out = []

    def go(v, lit):
        if isinstance(v, dict):
            for k, x in v.items():
                go(x, lit or k in ('literal', 'values'))
        elif isinstance(v, list):
            for x in v:
                go(x, lit)
        elif lit and minisql.is_text(v):
            out.append(v)
    go(j, False)
    return out


def const(ctx, where, n, alphabet):
    x = ctx.str('x', n, alphabet) if n else ''
    a, b = TEXTS[where].split('%s')
    text = a + x + b
    ctx.note('sql', text)
    t = tok(text)
    base = tok(a + 'qq' + b)
    if t is None or len(t) != len(base):
        ctx.done()              # not one constant
    value = [p[1] for p, q in zip(t, base) if q == ('str', 'qq')][0]
    ctx.note('value', value)
    try:
        j, f = reformat(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(False, 'a statement with a text constant is refused')
        return
    ctx.note('formatted', f)
    ctx.check(symex.sx_or(*[v == value for v in find(j, value)]), 'the parsed constant is not the text that was written')
    r = tok(f)
    ctx.check(r is not None, 'the formatted statement is not understood by the server')
    _, g = reformat(a + 'qq' + b)
    want = tok(g)
    ctx.check(len(r) == len(want), 'the formatted statement has other tokens')
    for p, q in zip(r, want):
        if q == ('str', 'qq'):
            ctx.check(p[0] == 'str' and p[1] == value, 'the constant sent is not the text that was written')
        else:
            ctx.check(p == q, 'the formatted statement has other tokens')
    ctx.cover('value' if len(value) == n else 'escaped')


def number(ctx, sign, n, frac, where):
    """an integer or decimal constant of symbolic digits"""
    digits = [ctx.str('d%d' % k, 1, [(0x30, 0x39)]) for k in range(n + frac)]
    num = ''
    for k, d in enumerate(digits):
        num = num + ('.' if k == n else '') + d
    val = sum((ord_(d) - 48) * 10 ** (n + frac - 1 - k) for k, d in enumerate(digits))
    text = ('select a from t where b = %s1' if where else 'insert into t (a, b) values (2, %s1)').split('1')[0] % sign
    text = text + num + ('' if where else ')')
    ctx.note('sql', text)
    try:
        j, f = reformat(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(False, 'a statement with a number is refused')
        return
    ctx.note('formatted', f)
    r = tok(f)
    ctx.check(r is not None, 'the formatted statement is not understood by the server')
    nums = [p[1] for p in r if p[0] == 'num']
    minus = [p for p in r if p == ('op', '-')]
    ctx.check(len(nums) == (1 if where else 2), 'the formatted statement has other tokens')
    v = nums[-1]
    if isinstance(v, float):
        v = Fraction(repr(v))
    ctx.check((-v if minus else v) * 10 ** frac == (-val if '-' in sign else val), 'the number sent is not the number that was written')
    ctx.cover('number')


def ord_(d):
    from symex.instrument import _ord
    return _ord(d)


NAMES = {'column': 'select `%s` from t', 'table': 'select a from `%s` where b = 1', 'qualified': 'select x.`%s`, b from x', 'schema': 'select a from `%s`.t', 'alias': 'select a as `%s`, b from t', 'where': 'select a from t where `%s` > 1 and b = 2',
         'order': 'select a from t order by `%s`', 'group': 'select count(b) from t group by `%s`', 'insert': 'insert into t (`%s`, b) values (1, 2)', 'into': 'insert into `%s` (a) values (1)',
         'set': 'update t set `%s` = 1, zzzz = 2', 'update': 'update `%s` set a = 1', 'delete': 'delete from `%s` where a = 1', 'function': 'select max(`%s`) from t', 'both': 'select `%s`.`%s` from t', 'tablealias': 'select a from t as `%s`'}


# https://dev.mysql.com/doc/refman/8.0/en/keywords.html (reserved words)
WORDS = """accessible add all alter analyze and as asc asensitive before between bigint binary blob both by call cascade case change char character check collate column condition constraint
continue convert create cross cube cume_dist current_date current_time current_timestamp current_user cursor database databases day_hour day_microsecond day_minute day_second dec decimal declare
default delayed delete dense_rank desc describe deterministic distinct distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit explain false fetch first_value float
float4 float8 for force foreign from fulltext function generated get grant group grouping groups having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout
insensitive insert int int1 int2 int3 int4 int8 integer interval into io_after_gtids io_before_gtids is iterate join json_table key keys kill lag last_value lateral lead leading leave left like limit
linear lines load localtime localtimestamp lock long longblob longtext loop low_priority match maxvalue mediumblob mediumint mediumtext middleint
minute_microsecond minute_second mod modifies natural not no_write_to_binlog nth_value ntile null numeric of on optimize optimizer_costs option optionally or order out outer outfile over partition
percent_rank precision primary procedure purge range rank read reads read_write real recursive references regexp release rename repeat replace require resignal restrict return revoke right rlike row
rows row_number schema schemas second_microsecond select sensitive separator set show signal smallint spatial specific sql sqlexception sqlstate sqlwarning sql_big_result sql_calc_found_rows
sql_small_result ssl starting stored straight_join system table terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock unsigned update usage use using utc_date
utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where while window with write xor year_month zerofill""".split()
# K02: the parse tree does not tell them from the types and values they stand for without quotes
VALUE_WORDS = """current_date current_time current_timestamp current_user default dual localtime localtimestamp utc_date utc_time utc_timestamp maxvalue bigint binary blob char character dec decimal double float
float4 float8 int int1 int2 int3 int4 int8 integer long longblob longtext mediumblob mediumint mediumtext middleint numeric precision real smallint tinyblob tinyint tinytext unsigned varbinary
varchar varcharacter""".split()


def chars(x):
    return [x[k] for k in range(len(x))]


def same(x, w):
    """x is the word w in any letter case"""
    if len(x) != len(w):
        return False
    return symex.sx_and(*[symex.sx_or(a == b, a == b.upper()) for a, b in zip(chars(x), w)])


def _plain(c, k):
    o = ord_(c)
    letter = symex.sx_or(symex.sx_and(o >= 65, o <= 90), symex.sx_and(o >= 97, o <= 122), o == 95, o == 36, symex.sx_and(o >= 0x80, o <= 0xffff))
    return letter if k == 0 else symex.sx_or(letter, symex.sx_and(o >= 48, o <= 57))


def join(parts, x):
    out = parts[0]
    for p in parts[1:]:
        out = out + x + p
    return out


ALPHABETS = {'': [(0x20, 0x5b), (0x5d, 0x5f), (0x61, 0x7e), (0x4e00, 0x9fa5)], 'marks': [(0x20, 0x2f), (0x3a, 0x40), (0x5b, 0x5b), (0x5d, 0x5f), (0x7b, 0x7e), (0x61, 0x62)], 'tick': [(0x60, 0x62)], 'letters': [(0x61, 0x7a), (0x30, 0x32)]}


def name(ctx, where, n, fixed=None, alphabet=''):
    """a quoted name of any characters"""
    if fixed is None:
        # not: names of only '*', names with a backslash or a control character (the parse tree marks dots with them)
        x = ctx.str('x', n, ALPHABETS[alphabet])
        ctx.assume(x != '*')
    else:
        x = fixed
    text = NAMES[where].replace('%s', '\0')
    inside = x.replace('`', '``')
    text = (lambda p: p[0] + inside + p[1] + (inside + p[2] if len(p) > 2 else ''))(text.split('\0'))
    base = NAMES[where].replace('%s', 'qq')
    ctx.note('sql', text)
    try:
        j, f = reformat(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(False, 'a statement with a quoted name is refused')
        return
    ctx.note('formatted', f)
    _, g = reformat(base)
    parts = g.replace('`qq`', 'qq').split('qq')
    plain = symex.sx_and(*[_plain(c, k) for k, c in enumerate(chars(x))])
    word = symex.sx_or(*[same(x, w) for w in WORDS])
    ctx.known_region('K02', symex.sx_or(*[same(x, w) for w in VALUE_WORDS]))
    quoted = '`' + inside + '`'
    bare, tick = f == join(parts, x), f == join(parts, quoted)
    ctx.check(symex.sx_or(tick, bare), 'the name sent is not the name that was written')
    ctx.check(symex.implies(symex.sx_not(tick), symex.sx_and(plain, symex.sx_not(word))), 'a name that needs quotes is sent without')
    ctx.cover('name')


def comment(ctx, tpl, n):
    import sql_parsing
    x = ctx.str('x', n) if n else ''
    a, b = tpl.split('%s')
    if '/*' in tpl:
        ctx.assume(symex.sx_not(symex.sx_or(*[symex.sx_and(x[i] == '*', x[i + 1] == '/') for i in range(n - 1)])))
        if n:
            ctx.assume(x[0] != '!')
            ctx.assume(x[0] != '+')
            ctx.assume(x[0] != '/')
            ctx.assume(x[n - 1] != '*')
    else:
        for i in range(n):
            ctx.assume(x[i] != '\n')
            ctx.assume(x[i] != '\r')
    text = a + x + b
    ctx.note('sql', text)
    try:
        j = sql_parsing.parse_mysql(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(False, 'a statement with a comment is refused')
        return
    want = sql_parsing.parse_mysql(PLAIN)
    ctx.note('parsed', str(j))
    ctx.check(j == want, 'a comment changes the statement')
    ctx.cover('comment')


LAYOUT = ["select a from t where b > 1 and c = 'x' or not d in (1, 2)", "select a as x, count(*) from t left join u on t.a = u.b group by a having count(*) > 1 order by a desc limit 3", "insert into t (a, b) values (1, 'x')",
          "update t set a = 1 where b is not null", "delete from t where a between 1 and 2 and b not like 'x%'", "select distinct case when a = 1 then 2 else 3 end from t", "create table t (a int, b varchar(10) not null)",
          "drop table t", "select a from t union all select b from u", "select a from t where b is null or c is true"]


def layout(ctx, k, word):
    """blanks of any kind, one keyword in any letter case"""
    import sql_parsing
    words = LAYOUT[k].split(' ')
    text = ''
    for i, w in enumerate(words):
        if i:
            text = text + (ctx.str('blank%d' % i, 1, [(9, 10), (13, 13), (32, 32)]) if i in (word, word + 1, word + 2) else ' ')
        if i == word:
            for j, c in enumerate(w):
                text = text + (ctx.str('letter%d' % j, 1, [(ord(c), ord(c)), (ord(c.upper()), ord(c.upper()))]) if c.upper() != c else c)
        else:
            text = text + w
    ctx.note('sql', text)
    try:
        j = sql_parsing.parse_mysql(text)
    except Exception as e:      # noqa
        if isinstance(e, (symex.Unsupported, symex.core.Control)):
            raise
        ctx.check(False, 'a statement in another layout is refused')
        return
    ctx.check(j == sql_parsing.parse_mysql(LAYOUT[k]), 'blanks or letter case change the statement')
    ctx.cover('layout')


KEYWORDS = set('select from where and or not in as left join on group by having order desc limit insert into values update set is null delete between like distinct case when then else end create table drop alter add column union all true int varchar'.split())
PLAIN = "select a from t where b > 1 and c = 'x'"
COMMENTS = ["select a /*%s*/ from t where b > 1 and c = 'x'", "select a from t -- %s\n where b > 1 and c = 'x'", "select a from t #%s\n where b > 1 and c = 'x'",
            "select a from t where b > 1 and c = 'x' -- %s", "select a from t where b > 1 and c = 'x' #%s", "/*%s*/ select a from t where b > 1 and c = 'x'",
            "select a from t where b > 1 --\t%s\n and c = 'x'"]


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for w in TEXTS:
        for n in range(0, (5 if w in '\'"' else 4) if big else (4 if w in '\'"' else 2)):
            out.append(Scenario('text %s %d' % (w, n), const, dict(where=w, n=n, alphabet=None), 'every text'))
    for c in COMMENTS:
        for n in (0, 1, 2, 3) if big else (0, 2):
            out.append(Scenario('comment %r %d' % (c, n), comment, dict(tpl=c, n=n), 'every text'))
    for sign in ('', '-', '- '):
        for n, frac in ((1, 0), (3, 0), (1, 1), (2, 2)) + (((6, 0), (3, 3), (0, 2), (2, 0)) if big else ()):
            for where in (True, False):
                out.append(Scenario('number %r %d.%d %s' % (sign, n, frac, where), number, dict(sign=sign, n=n, frac=frac, where=where), 'every digit'))
    for w in NAMES:
        for n in (1, 2) if big else (1,):
            out.append(Scenario('name %s %d' % (w, n), name, dict(where=w, n=n), 'every name', budget_s=300 if big else 40))
        for n in (1, 2, 3) if big else (1, 2) if w in ('column', 'table') else (1,):
            out.append(Scenario('name %s %d tick' % (w, n), name, dict(where=w, n=n, alphabet='tick'), 'every name with backticks', budget_s=300 if big else 40))
        for n in (2, 3, 4) if big else (2,) if w in ('column', 'table', 'insert') else ():
            for alph in ('marks', 'letters'):
                out.append(Scenario('name %s %d %s' % (w, n, alph), name, dict(where=w, n=n, alphabet=alph), 'every name', budget_s=300 if big else 40))
    for k, w in enumerate(WORDS):
        for where in NAMES if big else [list(NAMES)[k % len(NAMES)]]:
            out.append(Scenario('word %s %s' % (where, w), name, dict(where=where, n=0, fixed=w.upper() if k % 3 == 0 else w), ''))
    for k, t in enumerate(LAYOUT):
        for i, w in enumerate(t.split(' ')):
            if w in KEYWORDS:
                out.append(Scenario('layout %d %d %s' % (k, i, w), layout, dict(k=k, word=i), 'every blank and letter case'))
    return out
