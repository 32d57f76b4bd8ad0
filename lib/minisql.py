"""A small independent MySQL: parser + evaluator for the statements the checks use.

Texts may be symbolic (SymStr with symbolic characters and opaque ciphertext fragments); cell values may be
symbolic.  Comparisons produce conditions; a row's membership in a result is decided by forking on the condition.
Binary collation, strict SQL mode (over-long text and out-of-range numbers are errors), double quotes delimit
strings, NULL follows three-valued logic.  The same code runs on plain values when a counterexample is replayed.
"""
from decimal import Decimal
import functools
import symex
from symex import values as V
from symex.values import SymStr, SymInt, SymFloat, SymBool, Atom, NumAtom, FloatAtom, item_eq, sx_and, sx_or, sx_not


class SqlError(Exception):
    pass


class CipherMisuse(SqlError):
    """an operation that a real server would carry out on ciphertexts as if they were values"""


# ------------------------------------------------------------------ tokens

_ID0 = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$@')
_ID = _ID0 | set('0123456789')


def items_of(text):
    return list(text.items) if isinstance(text, SymStr) else [ord(c) for c in text]


def mkstr(items):
    return SymStr.make(items)


def _is(x, ch):
    """does item x equal the character ch (forks on symbolic characters)"""
    if isinstance(x, int):
        return x == ord(ch)
    if isinstance(x, Atom):
        return False if not getattr(x, 'fixed1', False) else bool(_b(item_eq(x, ord(ch))))
    return bool(V.mkbool(x == ord(ch)))


def _b(c):
    return c if isinstance(c, bool) else SymBool(c)


def tokens(text):
    it = items_of(text)
    out, i, n = [], 0, len(it)

    def ch(k):
        if k < n and isinstance(it[k], int):
            return chr(it[k])
        return ''
    while i < n:
        x = it[i]
        if isinstance(x, NumAtom):
            out.append(('num', x.v))
            i += 1
            continue
        if isinstance(x, FloatAtom):
            out.append(('num', x.v))
            i += 1
            continue
        if not isinstance(x, int):
            raise SqlError("syntax error near unquoted text")
        c = chr(x)
        if c in ' \t\r\n':
            i += 1
        elif c in '\'"':
            i += 1
            buf = []
            while True:
                if i >= n:
                    raise SqlError("unterminated string")
                if _is(it[i], '\\'):
                    if i + 1 >= n:
                        raise SqlError("unterminated string")
                    e = it[i + 1]
                    m = {'n': 10, 't': 9, 'r': 13, '0': 0, 'b': 8, 'Z': 26}
                    if isinstance(e, int):
                        if chr(e) in '%_':
                            buf += [92, e]
                        else:
                            buf.append(m.get(chr(e), e))
                    else:
                        for k, v in m.items():
                            if _is(e, k):
                                buf.append(v)
                                break
                            if _is(e, '%') or _is(e, '_'):
                                buf += [92, e]
                                break
                        else:
                            buf.append(e)
                    i += 2
                elif _is(it[i], c):
                    if i + 1 < n and _is(it[i + 1], c):
                        buf.append(ord(c))
                        i += 2
                    else:
                        i += 1
                        break
                else:
                    buf.append(it[i])
                    i += 1
            out.append(('str', mkstr(buf)))
        elif c == '`':
            j = i + 1
            buf = ''
            while True:
                if ch(j) == '':
                    raise SqlError("unterminated identifier")
                if ch(j) == '`':
                    if ch(j + 1) == '`':
                        buf += '`'
                        j += 2
                        continue
                    break
                buf += ch(j)
                j += 1
            out.append(('qid', buf))
            i = j + 1
        elif c.isdigit() or (c == '.' and ch(i + 1).isdigit()):
            j = i
            while ch(j).isdigit() or ch(j) == '.' or (ch(j) in 'eE' and ch(j) and (ch(j + 1).isdigit() or ch(j + 1) in ('+', '-') and ch(j + 1) and ch(j + 2).isdigit())) or \
                    (ch(j) in ('+', '-') and ch(j) and ch(j - 1) in 'eE'):
                j += 1
            t = ''.join(ch(k) for k in range(i, j))
            out.append(('num', int(t) if t.isdigit() else float(t)))
            i = j
        elif c in _ID0:
            j = i
            while ch(j) in _ID and ch(j):
                j += 1
            if j < n and not isinstance(it[j], int):
                raise SqlError("syntax error: identifier runs into a literal")
            out.append(('id', ''.join(ch(k) for k in range(i, j))))
            i = j
        else:
            two = c + ch(i + 1)
            if two + ch(i + 2) == '<=>':
                out.append(('op', '<=>'))
                i += 3
            elif two in ('<>', '!=', '<=', '>=', '||', ':=', '&&', '<<', '>>'):
                out.append(('op', '<>' if two == '!=' else two))
                i += 2
            elif c in '()=<>,.*+-/%;&|~^!':
                out.append(('op', c))
                i += 1
            else:
                raise SqlError("syntax error at %r" % c)
    while out and out[-1] == ('op', ';'):
        out.pop()
    return out


# ------------------------------------------------------------------ parser

RESERVED = set('''select from where group by having order limit offset and or not in like between is null as on join inner
left right outer distinct insert into values update set delete create table drop alter desc asc union all cross
exists if primary key foreign references constraint default case when then else end div mod xor true false'''.split())


class P:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '')

    def kw(self, *words):
        """accept a keyword sequence"""
        for k, w in enumerate(words):
            a, b = self.peek(k)
            if a != 'id' or b.lower() != w:
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise SqlError("syntax error: expected %s near %r" % (what, self.t[self.i:self.i + 3]))

    def name(self):
        a, b = self.peek()
        if a == 'qid' or (a == 'id' and b.lower() not in RESERVED):
            self.i += 1
            return b
        raise SqlError("syntax error: expected a name near %r" % (self.peek(),))

    def end(self):
        self.need(self.i == len(self.t), 'end of statement')

    # expressions: nested tuples, the precedence levels of the MySQL grammar
    def expr(self):
        e = self.xor_()
        while self.kw('or') or self.op('||'):
            e = ('or', e, self.xor_())
        return e

    def xor_(self):
        e = self.and_()
        while self.kw('xor'):
            e = ('xor', e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.kw('and') or self.op('&&'):
            e = ('and', e, self.not_())
        return e

    def not_(self):
        if self.kw('not'):
            return ('not', self.not_())
        return self.boolp()

    def boolp(self):
        e = self.pred()
        while True:
            if self.peek()[0] == 'op' and self.peek()[1] in ('=', '<>', '<', '>', '<=', '>=', '<=>'):
                o = self.peek()[1]
                self.i += 1
                e = (o, e, self.pred())
            elif self.kw('is', 'not', 'null'):
                e = ('notnull', e)
            elif self.kw('is', 'null'):
                e = ('isnull', e)
            elif self.kw('is', 'not', 'true'):
                e = ('nottrue', e)
            elif self.kw('is', 'true'):
                e = ('istrue', e)
            elif self.kw('is', 'not', 'false'):
                e = ('notfalse', e)
            elif self.kw('is', 'false'):
                e = ('isfalse', e)
            else:
                return e

    def pred(self):
        e = self.bit_or()
        neg = False
        save = self.i
        if self.kw('not'):
            neg = True
        if self.kw('like'):
            r = ('like', e, self.unary())
        elif self.kw('in'):
            self.need(self.op('('), '(')
            if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
                r = ('insel', e, self.select())
                self.need(self.op(')'), ')')
            else:
                xs = [self.expr()]
                while self.op(','):
                    xs.append(self.expr())
                self.need(self.op(')'), ')')
                r = ('in', e, xs)
        elif self.kw('between'):
            a = self.bit_or()
            self.need(self.kw('and'), 'AND')
            r = ('and', ('>=', e, a), ('<=', e, self.pred()))
        else:
            self.i = save
            return e
        return ('not', r) if neg else r

    def left(self, ops, sub):
        e = sub()
        while self.peek()[0] == 'op' and self.peek()[1] in ops:
            o = self.peek()[1]
            self.i += 1
            e = (o, e, sub())
        return e

    def bit_or(self):
        return self.left(('|',), self.bit_and)

    def bit_and(self):
        return self.left(('&',), self.shift)

    def shift(self):
        return self.left(('<<', '>>'), self.add)

    def add(self):
        return self.left(('+', '-'), self.mul)

    def mul(self):
        e = self.bit_xor()
        while True:
            if self.peek() in (('op', '*'), ('op', '/'), ('op', '%')):
                o = self.peek()[1]
                self.i += 1
                e = (o, e, self.bit_xor())
            elif self.kw('div'):
                e = ('div', e, self.bit_xor())
            elif self.peek(1) != ('op', '(') and self.kw('mod') or self.peek()[0] == 'id' and self.peek()[1].lower() == 'mod' and self.kw('mod'):
                e = ('%', e, self.bit_xor())
            else:
                return e

    def bit_xor(self):
        return self.left(('^',), self.unary)

    def unary(self):
        if self.op('-'):
            return ('neg', self.unary())
        if self.op('~'):
            return ('bitnot', self.unary())
        if self.op('!'):
            return ('not', self.unary())
        if self.op('+'):
            return self.unary()
        return self.prim()

    def case(self):
        base = None
        if not (self.peek()[0] == 'id' and self.peek()[1].lower() in ('when', 'else', 'end')):
            base = self.expr()
        arms, els = [], ('lit', None)
        while self.kw('when'):
            c = self.expr()
            self.need(self.kw('then'), 'THEN')
            arms.append((c if base is None else ('=', base, c), self.expr()))
        if self.kw('else'):
            els = self.expr()
        self.need(self.kw('end') and arms, 'END')
        return ('case', arms, els)

    def prim(self):
        a, b = self.peek()
        if a in ('num', 'str'):
            self.i += 1
            return ('lit', b)
        if self.op('('):
            if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
                s = self.select()
                self.need(self.op(')'), ')')
                return ('scalar', s)
            e = self.expr()
            self.need(self.op(')'), ')')
            return e
        if self.kw('null'):
            return ('lit', None)
        if self.kw('case'):
            return self.case()
        if self.kw('exists'):
            self.need(self.op('('), '(')
            q = self.select()
            self.need(self.op(')'), ')')
            return ('exists', q)
        if a == 'id' and b.lower() in ('true', 'false') and self.peek(1) != ('op', '('):
            self.i += 1
            return ('lit', 1 if b.lower() == 'true' else 0)
        if a == 'id' and self.peek(1) == ('op', '(') and (b.lower() not in RESERVED or b.lower() in ('if', 'mod', 'left', 'right', 'values')):
            self.i += 2
            f = b.lower()
            if self.op('*'):
                self.need(self.op(')'), ')')
                return ('fn', f, '*', False)
            dist = self.kw('distinct')
            args = []
            if not self.op(')'):
                args.append(self.expr())
                while self.op(','):
                    args.append(self.expr())
                self.need(self.op(')'), ')')
            return ('fn', f, args, dist)
        if a == 'id' and b[0] == '@' and b[1:2] not in ('', '@'):
            self.i += 1
            if self.op(':='):
                return ('assign', b.lower(), self.expr())
            return ('var', b.lower())
        n = self.name()
        if self.op('.'):
            if self.op('*'):
                return ('star', n)
            return ('col', n, self.name())
        return ('col', None, n)

    # statements
    def select(self):
        self.need(self.kw('select'), 'SELECT')
        s = dict(kind='select', distinct=self.kw('distinct'), items=[], frm=[], where=None, group=[], having=None,
                 order=[], limit=None, offset=0)
        while True:
            if self.op('*'):
                s['items'].append((('star', None), None))
            else:
                e = self.expr()
                al = None
                if self.kw('as'):
                    al = self.name() if self.peek()[0] != 'str' else self.t[self.i][1]
                    if self.t[self.i - 1] != ('id', al) and self.t[self.i - 1] != ('qid', al):
                        self.i += 1
                elif self.peek()[0] in ('id', 'qid') and (self.peek()[0] == 'qid' or self.peek()[1].lower() not in RESERVED):
                    al = self.name()
                s['items'].append((e, al))
            if not self.op(','):
                break
        if self.kw('from'):
            s['frm'].append(('first', self.source(), None))
            while True:
                if self.op(','):
                    s['frm'].append(('inner', self.source(), None))
                    continue
                kind = None
                if self.kw('inner', 'join') or self.kw('join') or self.kw('cross', 'join'):
                    kind = 'inner'
                elif self.kw('left', 'join') or self.kw('left', 'outer', 'join'):
                    kind = 'left'
                elif self.kw('right', 'join') or self.kw('right', 'outer', 'join'):
                    kind = 'right'
                if kind is None:
                    break
                src = self.source()
                on = self.expr() if self.kw('on') else None
                s['frm'].append((kind, src, on))
        if self.kw('where'):
            s['where'] = self.expr()
        if self.kw('group', 'by'):
            s['group'].append(self.expr())
            while self.op(','):
                s['group'].append(self.expr())
        if self.kw('having'):
            s['having'] = self.expr()
        if self.kw('order', 'by'):
            while True:
                e = self.expr()
                desc = self.kw('desc')
                if not desc:
                    self.kw('asc')
                s['order'].append((e, desc))
                if not self.op(','):
                    break
        if self.kw('limit'):
            a = self.limitnum()
            if self.op(','):
                s['offset'], s['limit'] = a, self.limitnum()
            else:
                s['limit'] = a
                if self.kw('offset'):
                    s['offset'] = self.limitnum()
        return s

    def query(self):
        """select [union [all] select ...]"""
        parts, distinct = [self.part()], []
        while self.kw('union'):
            distinct.append(not self.kw('all'))
            parts.append(self.part())
        if len(parts) == 1:
            return parts[0]
        if any(p['order'] or p['limit'] is not None for p in parts):
            raise symex.Unsupported("ORDER BY / LIMIT in a UNION")
        return dict(kind='union', parts=parts, distinct=distinct)

    def part(self):
        if self.op('('):
            q = self.select()
            self.need(self.op(')'), ')')
            return q
        return self.select()

    def limitnum(self):
        a, b = self.peek()
        self.need(a == 'num', 'a number')
        self.i += 1
        return b

    def source(self):
        if self.op('('):
            q = self.query()
            self.need(self.op(')'), ')')
            self.kw('as')
            if not (self.peek()[0] in ('id', 'qid')):
                raise SqlError("Every derived table must have its own alias")
            return ('sub', q, self.name())
        n = self.name()
        if self.op('.'):
            n = self.name()
        al = None
        if self.kw('as'):
            al = self.name()
        elif self.peek()[0] == 'qid' or self.peek()[0] == 'id' and self.peek()[1].lower() not in RESERVED:
            al = self.name()
        return ('table', n, al or n)

    def stmt(self):
        if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select':
            s = self.query()
            self.end()
            return s
        if self.kw('insert', 'into'):
            t = self.name()
            cols = None
            if self.op('('):
                cols = [self.name()]
                while self.op(','):
                    cols.append(self.name())
                self.need(self.op(')'), ')')
            if self.peek()[0] == 'id' and self.peek()[1].lower() == 'select' or \
                    self.peek() == ('op', '(') and self.peek(1)[0] == 'id' and self.peek(1)[1].lower() == 'select':
                q = self.query()
                self.end()
                return dict(kind='insert', table=t, cols=cols, select=q)
            self.need(self.kw('values') or self.kw('value'), 'VALUES')
            rows = []
            while True:
                self.need(self.op('('), '(')
                r = [self.expr()]
                while self.op(','):
                    r.append(self.expr())
                self.need(self.op(')'), ')')
                rows.append(r)
                if not self.op(','):
                    break
            self.end()
            return dict(kind='insert', table=t, cols=cols, rows=rows)
        if self.kw('update'):
            t = self.name()
            self.need(self.kw('set'), 'SET')
            sets = []
            while True:
                c = self.name()
                if self.op('.'):
                    c = self.name()
                self.need(self.op('='), '=')
                sets.append((c, self.expr()))
                if not self.op(','):
                    break
            w = self.expr() if self.kw('where') else None
            lim = self.limitnum() if self.kw('limit') else None
            self.end()
            return dict(kind='update', table=t, sets=sets, where=w, limit=lim)
        if self.kw('delete', 'from'):
            t = self.name()
            w = self.expr() if self.kw('where') else None
            lim = self.limitnum() if self.kw('limit') else None
            self.end()
            return dict(kind='delete', table=t, where=w, limit=lim)
        if self.kw('set'):
            a, b = self.peek()
            self.need(a == 'id' and b[0] == '@' and b[1:2] not in ('', '@'), 'a user variable')
            self.i += 1
            self.need(self.op('=') or self.op(':='), '=')
            e = self.expr()
            self.end()
            return dict(kind='set', name=b.lower(), value=e)
        if self.kw('drop', 'table'):
            ie = self.kw('if', 'exists')
            t = self.name()
            self.end()
            return dict(kind='drop', table=t, if_exists=ie)
        if self.kw('create', 'table'):
            return self.create()
        if self.kw('alter', 'table'):
            return self.alter()
        raise SqlError("syntax error near %r" % (self.t[self.i:self.i + 3],))

    def namelist(self):
        self.need(self.op('('), '(')
        xs = [self.name()]
        while self.op(','):
            xs.append(self.name())
        self.need(self.op(')'), ')')
        return xs

    def create(self):
        ine = self.kw('if', 'not', 'exists')
        t = self.name()
        self.need(self.op('('), '(')
        cols, keys = [], []
        while True:
            cname = None
            if self.kw('constraint'):
                cname = self.name()
            if self.kw('primary', 'key'):
                keys.append(dict(kind='primary', name=cname, cols=self.namelist()))
            elif self.kw('foreign', 'key'):
                c = self.namelist()
                self.need(self.kw('references'), 'REFERENCES')
                keys.append(dict(kind='foreign', name=cname, cols=c, ref=self.name(), refcols=self.namelist()))
            else:
                c = dict(name=self.name(), type=None, args=[], notnull=False, default=None, pk=False, auto=False, comment=None,
                         has_default=False)
                a, b = self.peek()
                self.need(a == 'id', 'a type')
                c['type'] = b.lower()
                self.i += 1
                if self.op('('):
                    c['args'].append(self.limitnum())
                    while self.op(','):
                        c['args'].append(self.limitnum())
                    self.need(self.op(')'), ')')
                c['unsigned'] = self.kw('unsigned')
                c['unique'] = False
                while True:
                    if self.kw('not', 'null'):
                        c['notnull'] = True
                    elif self.kw('null'):
                        pass
                    elif self.kw('primary', 'key'):
                        c['pk'] = True
                    elif self.kw('auto_increment'):
                        c['auto'] = True
                    elif self.kw('unique'):
                        c['unique'] = True
                    elif self.kw('default'):
                        c['has_default'] = True
                        e = self.unary()
                        self.need(e[0] in ('lit', 'neg'), 'a default literal')
                        c['default'] = e[1] if e[0] == 'lit' else -e[1][1]
                    elif self.kw('comment'):
                        c['comment'] = self.unary()[1]
                    else:
                        break
                cols.append(c)
            if not self.op(','):
                break
        self.need(self.op(')'), ')')
        opts = {}
        while self.peek()[0] == 'id':
            k = self.peek()[1].lower()
            self.i += 1
            self.op('=')
            opts[k] = self.peek()[1]
            self.i += 1
        self.end()
        return dict(kind='create', table=t, cols=cols, keys=keys, opts=opts, if_not_exists=ine)

    def alter(self):
        t = self.name()
        a = None
        if self.kw('add', 'primary', 'key'):
            a = dict(op='add primary', cols=self.namelist())
        elif self.kw('drop', 'primary', 'key'):
            a = dict(op='drop primary')
        elif self.kw('add', 'constraint'):
            n = self.name()
            self.need(self.kw('foreign', 'key'), 'FOREIGN KEY')
            c = self.namelist()
            self.need(self.kw('references'), 'REFERENCES')
            a = dict(op='add foreign', name=n, cols=c, ref=self.name(), refcols=self.namelist())
        elif self.kw('drop', 'foreign', 'key'):
            a = dict(op='drop foreign', name=self.name())
        elif self.kw('add', 'index') or self.kw('add', 'fulltext') or self.kw('add', 'unique'):
            k = self.t[self.i - 1][1].lower()
            self.kw('index') or self.kw('key')
            n = None if self.peek() == ('op', '(') else self.name()
            a = dict(op='add ' + k, name=n, cols=self.namelist())
            a['name'] = n or a['cols'][0]
        elif self.kw('drop', 'index'):
            a = dict(op='drop index', name=self.name())
        self.need(a is not None, 'ALTER action')
        self.end()
        return dict(kind='alter', table=t, action=a)


_CACHE = {}


def parse(text):
    if isinstance(text, str):
        if text not in _CACHE:
            _CACHE[text] = P(text).stmt()
        return _CACHE[text]
    return P(text).stmt()


# ------------------------------------------------------------------ values

def is_text(v):
    return isinstance(v, (str, SymStr))


def is_numv(v):
    return isinstance(v, (int, float, Decimal, SymInt, SymFloat)) and not isinstance(v, bool)


class Piece:
    """k-th character of an opaque fragment of known length"""
    __slots__ = ('at', 'k')

    def __init__(self, at, k):
        self.at, self.k = at, k


def unfold(items):
    out = []
    for x in items:
        n = x.length() if isinstance(x, Atom) and getattr(x, 'unforgeable', False) else None
        if isinstance(n, int):
            out += [Piece(x, k) for k in range(n)]
        else:
            out.append(x)
    return out


def like(text, pat):
    """LIKE with % and _ (no escapes) as one condition"""
    t, p = unfold(items_of(text)), unfold(items_of(pat))
    n, m = len(t), len(p)

    @functools.lru_cache(None)
    def go(i, j):
        if j == m:
            return i == n
        if p[j] == ord('%'):
            return sx_or(*[go(k, j + 1) for k in range(i, n + 1)])
        if i == n:
            return False
        if p[j] == ord('_'):
            if isinstance(t[i], Atom):
                raise symex.Unsupported("LIKE _ against text of unknown length")
            return go(i + 1, j + 1)
        a, b = isinstance(t[i], Piece), isinstance(p[j], Piece)
        if a or b:
            # characters of a ciphertext: equal only as whole ciphertexts (no accidental matches at other offsets)
            if not (a and b) or t[i].k != p[j].k:
                return False
            c = t[i].at is p[j].at or t[i].at.same(p[j].at) if t[i].k == 0 else True
        else:
            c = item_eq(t[i], p[j])
            c = c if isinstance(c, bool) else V.mkbool(c)
        if c is False:
            return False
        return sx_and(c, go(i + 1, j + 1))
    return go(0, 0)


def identical(a, b):
    """the same term, whatever its value"""
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return len(a.items) == len(b.items) and all(identical(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, NumAtom) and isinstance(b, NumAtom):
        return identical(a.v, b.v)
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return a.e.eq(b.e)
    return a is b or type(a) is type(b) and isinstance(a, (int, str)) and a == b


def toint(v):
    """rounding of a number used as an integer"""
    if isinstance(v, (SymFloat, V.SymDec)):
        r = V.mkint(V.z3.ToInt(v.e + V.z3.Q(1, 2)))
        return r if bool(v >= 0) else -toint(-v)
    if isinstance(v, (float, Decimal)):
        return int(v + type(v)(0.5)) if v >= 0 else -toint(-v)
    return v


def wrap64(v):
    """a number as an unsigned 64-bit integer"""
    v = toint(v)
    if isinstance(v, int):
        return v % 2 ** 64
    return v if bool(v >= 0) else v + 2 ** 64


def arith(o, x, y):
    if o == '+':
        return x + y
    if o == '-':
        return x - y
    if o == '*':
        return x * y
    if o == '/':
        if isinstance(x, Decimal) or isinstance(y, Decimal):
            return Decimal(x) / Decimal(y)
        return x / y
    if o == '%' and isinstance(x, (int, symex.SymInt)) and isinstance(y, (int, symex.SymInt)) and bool(x >= 0) and bool(y > 0):
        return x % y
    if o in ('div', '%'):
        q = x // y if bool(x >= 0) == bool(y >= 0) else -((-x) // y)
        return q if o == 'div' else x - y * q
    x, y = wrap64(x), wrap64(y)
    if o in ('<<', '>>'):
        if not isinstance(y, int):
            y = symex.active().concretize(y.e, 16)
        if y >= 64:
            return 0
        r = x * 2 ** y if o == '<<' else x // 2 ** y
        return r % 2 ** 64
    if isinstance(x, int) and isinstance(y, int):
        return {'&': x & y, '|': x | y, '^': x ^ y}[o]
    z3 = V.z3
    W = 72
    a, b = z3.Int2BV(V.zi(x), W), z3.Int2BV(V.zi(y), W)
    return V.mkint(z3.BV2Int({'&': a & b, '|': a | b, '^': a ^ b}[o]))


def wrong(tag):
    return CipherMisuse if tag else SqlError


class Cell:
    """value of an expression plus how it may be used"""
    __slots__ = ('v', 'tag')

    def __init__(self, v, tag=None):
        self.v, self.tag = v, tag


class Table:
    def __init__(self, name, spec):
        self.name, self.spec = name, spec
        self.cols = [c['name'] for c in spec['cols']]
        self.types = {c['name']: dict(c) for c in spec['cols']}
        self.rows = []
        self.keys = [dict(k) for k in spec['keys']]
        self.keys += [dict(kind='primary', name=None, cols=[c['name']]) for c in spec['cols'] if c['pk']]
        self.keys += [dict(kind='unique', name=c['name'], cols=[c['name']]) for c in spec['cols'] if c.get('unique')]
        self.auto = int(spec['opts'].get('auto_increment', 1))


class MiniDB:
    """tags: {(table, column): 'text-cipher' | 'order-cipher' | 'number-cipher'} columns whose values are ciphertext"""

    def __init__(self):
        self.tables = {}
        self.tags = {}
        self.misuse = None
        self.log = []
        self.vars = {}          # user variables of the connection

    # -- cells
    def store(self, col, v):
        t = col['type']
        if v is None:
            if col['notnull'] or col['pk']:
                raise SqlError("Column '%s' cannot be null" % col['name'])
            return None
        if t in ('varchar', 'char'):
            if is_numv(v):
                v = V.SymStr.make([NumAtom(v)]) if isinstance(v, SymInt) else (str(v) if not isinstance(v, SymFloat) else SymStr([FloatAtom(v)]))
            n = col['args'][0] if col['args'] else 1
            ln = len(v) if isinstance(v, str) else v.length()
            if not (ln <= n):
                raise SqlError("Data too long for column '%s' at row 1" % col['name'])
            return v
        if t in ('int', 'integer', 'bigint', 'tinyint', 'smallint'):
            if is_text(v):
                v = self.text_to_num(v)
            lim = {'int': 31, 'integer': 31, 'bigint': 63, 'tinyint': 7, 'smallint': 15}[t]
            if isinstance(v, float):
                v = int(v + 0.5) if v >= 0 else -int(-v + 0.5)
            if not sx_and(v >= -2 ** lim, v <= 2 ** lim - 1):
                raise SqlError("Out of range value for column '%s'" % col['name'])
            return v
        if t in ('decimal', 'numeric'):
            if is_text(v):
                v = self.text_to_num(v)
            p = col['args'][0] if col['args'] else 10
            if not sx_and(v > -10 ** p, v < 10 ** p):
                raise SqlError("Out of range value for column '%s'" % col['name'])
            return v
        if t in ('float', 'double', 'real'):
            if is_text(v):
                v = self.text_to_num(v)
            if isinstance(v, SymInt):
                return v
            return v
        if t in ('date', 'datetime', 'timestamp', 'text', 'longtext', 'mediumtext', 'time', 'blob', 'json'):
            return v
        raise SqlError("unknown type %s" % t)

    @staticmethod
    def text_to_num(v):
        if isinstance(v, SymStr):
            if len(v.items) == 1 and isinstance(v.items[0], NumAtom):
                return v.items[0].v
            raise SqlError("Incorrect numeric value")
        try:
            return int(v)
        except ValueError:
            try:
                if v.strip().lower().lstrip('+-')[:1] in ('n', 'i'):
                    raise ValueError
                return float(v)
            except ValueError:
                raise SqlError("Incorrect numeric value: %r" % v)

    # -- statements
    def execute(self, text):
        st = parse(text)
        self.log.append((text, st))
        try:
            return getattr(self, 'do_' + st['kind'])(st)
        except CipherMisuse as e:
            self.misuse = str(e)
            raise

    def table(self, n):
        if n not in self.tables:
            raise SqlError("Table '%s' doesn't exist" % n)
        return self.tables[n]

    def do_create(self, st):
        if st['table'] in self.tables:
            if st['if_not_exists']:
                return None
            raise SqlError("Table '%s' already exists" % st['table'])
        names = [c['name'].lower() for c in st['cols']]
        if len(set(names)) != len(names):
            raise SqlError("Duplicate column name")
        for c in st['cols']:
            if c['type'] == 'varchar' and not c['args']:
                raise SqlError("VARCHAR needs a length")
            if c['type'] == 'char' and c['args'] and c['args'][0] > 255:
                raise SqlError("Column length too big for column '%s' (max = 255)" % c['name'])
            if c['type'] == 'varchar' and c['args'][0] > 65535:
                raise SqlError("Column length too big")
            if c['type'] == 'decimal' and c['args'] and c['args'][0] > 65:
                raise SqlError("Too-big precision")
            if c['auto'] and c['type'] not in ('int', 'integer', 'bigint', 'tinyint', 'smallint'):
                raise SqlError("Incorrect column specifier for column '%s'" % c['name'])
            if c['has_default'] and c['default'] is not None:
                self.store(c, c['default'])
        t = Table(st['table'], st)
        if sum(k['kind'] == 'primary' for k in t.keys) > 1:
            raise SqlError("Multiple primary key defined")
        for k in t.keys:
            self._keycheck(t, k)
        autos = [c['name'] for c in st['cols'] if c['auto']]
        if len(autos) > 1 or autos and not any(k['kind'] in ('primary', 'unique', 'index') and k['cols'][0] == autos[0] for k in t.keys):
            raise SqlError("Incorrect table definition; there can be only one auto column and it must be defined as a key")
        self.tables[st['table']] = t
        return None

    def _keycheck(self, t, k):
        for c in k['cols']:
            if c not in t.cols:
                raise SqlError("Key column '%s' doesn't exist in table" % c)
        if k['kind'] == 'foreign':
            r = self.tables.get(k['ref']) if k['ref'] != t.name else t
            if r is None:
                raise SqlError("Failed to open the referenced table '%s'" % k['ref'])
            for c in k['refcols']:
                if c not in r.cols:
                    raise SqlError("Referenced column '%s' missing" % c)
            if not any(x['cols'][:len(k['refcols'])] == k['refcols'] for x in r.keys):
                raise SqlError("Missing index for the foreign key in the referenced table")
            if len(k['cols']) != len(k['refcols']):
                raise SqlError("Key reference and table reference don't match")
        for c in k['cols']:
            if k['kind'] == 'primary':
                t.types[c]['pk'] = True

    def do_set(self, st):
        self.vars[st['name']] = self.ev(st['value'], Env(self, []))

    def do_drop(self, st):
        if st['table'] not in self.tables:
            if st['if_exists']:
                return None
            raise SqlError("Unknown table '%s'" % st['table'])
        if any(k['kind'] == 'foreign' and k['ref'] == st['table'] for u in self.tables.values() if u.name != st['table'] for k in u.keys):
            raise SqlError("Cannot drop table '%s' referenced by a foreign key constraint" % st['table'])
        del self.tables[st['table']]
        return None

    def do_alter(self, st):
        t = self.table(st['table'])
        a = st['action']
        if a['op'] == 'add primary':
            if any(k['kind'] == 'primary' for k in t.keys):
                raise SqlError("Multiple primary key defined")
            k = dict(kind='primary', name=None, cols=a['cols'])
            was = {c: t.types[c]['pk'] for c in k['cols'] if c in t.cols}
            self._keycheck(t, k)
            t.keys.append(k)
            try:
                self._unique(t, t.rows)
                if any(r[c] is None for r in t.rows for c in k['cols']):
                    raise SqlError("Column cannot be null")
            except SqlError:
                t.keys.remove(k)
                for c in was:
                    t.types[c]['pk'] = was[c]
                raise
        elif a['op'] == 'drop primary':
            if not any(k['kind'] == 'primary' for k in t.keys):
                raise SqlError("Can't DROP 'PRIMARY'")
            t.keys = [k for k in t.keys if k['kind'] != 'primary']
        elif a['op'] == 'add foreign':
            k = dict(kind='foreign', name=a['name'], cols=a['cols'], ref=a['ref'], refcols=a['refcols'])
            self._keycheck(t, k)
            t.keys.append(k)
            try:
                self._references(t, t.rows)
            except SqlError:
                t.keys.remove(k)
                raise
        elif a['op'] == 'drop foreign':
            if not any(k['kind'] == 'foreign' and k['name'] == a['name'] for k in t.keys):
                raise SqlError("Can't DROP '%s'" % a['name'])
            t.keys = [k for k in t.keys if not (k['kind'] == 'foreign' and k['name'] == a['name'])]
        elif a['op'] in ('add index', 'add unique', 'add fulltext'):
            k = dict(kind=a['op'][4:], name=a['name'], cols=a['cols'])
            self._keycheck(t, k)
            t.keys.append(k)
            try:
                self._unique(t, t.rows)
            except SqlError:
                t.keys.remove(k)
                raise
        elif a['op'] == 'drop index':
            if not any(k.get('name') == a['name'] and k['kind'] in ('index', 'unique', 'fulltext') for k in t.keys):
                raise SqlError("Can't DROP '%s'" % a['name'])
            t.keys = [k for k in t.keys if not (k.get('name') == a['name'] and k['kind'] in ('index', 'unique', 'fulltext'))]
        return None

    def do_insert(self, st):
        t = self.table(st['table'])
        cols = st['cols'] or list(t.cols)
        for c in cols:
            if c not in t.cols:
                raise SqlError("Unknown column '%s' in 'field list'" % c)
        if len(set(cols)) != len(cols):
            raise SqlError("Column specified twice")
        if 'select' in st:
            data = self.do_select(st['select'])
            if any(len(r) != len(cols) for r in data):
                raise SqlError("Column count doesn't match value count")
        else:
            data = []
            for r in st['rows']:
                if len(r) != len(cols):
                    raise SqlError("Column count doesn't match value count at row 1")
                data.append([self.ev(e, Env(self, [])).v for e in r])
        new = []
        for r in data:
            row = {}
            d = dict(zip(cols, r))
            for c in t.spec['cols']:
                n = c['name']
                if n in d and not (d[n] is None and c['auto']):
                    row[n] = self.store(t.types[n], d[n])
                elif c['auto']:
                    row[n] = t.auto
                    t.auto += 1
                elif c['has_default'] or not t.types[n]['notnull']:
                    row[n] = self.store(c, c['default']) if c['default'] is not None else None
                    if row[n] is None and t.types[n]['pk']:
                        raise SqlError("Field '%s' doesn't have a default value" % n)
                else:
                    raise SqlError("Field '%s' doesn't have a default value" % n)
                if c['auto'] and row[n] is not None and bool(row[n] >= t.auto):
                    t.auto = row[n] + 1
            new.append(row)
        self._unique(t, t.rows + new)
        self._references(t, t.rows + new)
        t.rows.extend(new)
        return None

    def _unique(self, t, rows):
        for k in t.keys:
            if k['kind'] not in ('primary', 'unique'):
                continue
            for i, a in enumerate(rows):
                for b in rows[:i]:
                    if all(a[c] is not None and b[c] is not None and bool(self.same(a[c], b[c])) for c in k['cols']):
                        raise SqlError("Duplicate entry for key")

    def _references(self, t, rows, parents=None):
        for k in t.keys:
            if k['kind'] != 'foreign':
                continue
            ref = self.tables.get(k['ref'])
            prows = parents if parents is not None else ref.rows if ref is not None else []
            for a in rows:
                if all(a[c] is not None for c in k['cols']) and \
                        not any(all(b[d] is not None and bool(self.same(a[c], b[d])) for c, d in zip(k['cols'], k['refcols'])) for b in prows):
                    raise SqlError("Cannot add or update a child row: a foreign key constraint fails")

    def _referenced(self, t, rows):
        for u in self.tables.values():
            if any(k['kind'] == 'foreign' and k['ref'] == t.name for k in u.keys):
                self._references(u, rows if u is t else u.rows, rows)

    def do_update(self, st):
        t = self.table(st['table'])
        for c, _ in st['sets']:
            if c not in t.cols:
                raise SqlError("Unknown column '%s' in 'field list'" % c)
        k = 0
        rows = []
        for row in t.rows:
            row = dict(row)
            rows.append(row)
            env = Env(self, [(t.name, t.name, row)])
            if st['limit'] is not None and k >= st['limit']:
                continue
            if st['where'] is None or bool(self.cond(st['where'], env)[0]):
                k += 1
                for c, e in st['sets']:
                    v = self.ev(e, Env(self, [(t.name, t.name, row)]))
                    row[c] = self.store(t.types[c], v.v)
        self._unique(t, rows)
        self._references(t, rows)
        self._referenced(t, rows)
        t.rows = rows
        return None

    def do_delete(self, st):
        t = self.table(st['table'])
        keep, k = [], 0
        for row in t.rows:
            if (st['limit'] is None or k < st['limit']) and \
                    (st['where'] is None or bool(self.cond(st['where'], Env(self, [(t.name, t.name, row)]))[0])):
                k += 1
            else:
                keep.append(row)
        self._referenced(t, keep)
        t.rows = keep
        return None

    # -- select
    def rows_of(self, src):
        """-> (alias, real table name or None, columns, rows, tags)"""
        if src[0] == 'table':
            t = self.table(src[1])
            tags = {c: self.tags.get((t.name, c)) for c in t.cols}
            return src[2], t.cols, t.rows, tags
        q = src[1]
        rows, cols, tags = self.run_select(q)
        if len(set(cols)) != len(cols):
            raise SqlError("Duplicate column name in derived table")
        return src[2], cols, [dict(zip(cols, r)) for r in rows], dict(zip(cols, tags))

    def do_select(self, q):
        return self.run_select(q)[0]

    def do_union(self, q):
        return self.run_union(q)[0]

    def run_union(self, q):
        rows, names, tags = self.run_select(q['parts'][0])
        for p, distinct in zip(q['parts'][1:], q['distinct']):
            more, names2, _ = self.run_select(p)
            if len(names2) != len(names):
                raise SqlError("The used SELECT statements have a different number of columns")
            rows = rows + more
            if distinct:
                out = []
                for r in rows:
                    if not any(bool(sx_and(*[self.same(a, b) for a, b in zip(r, o)])) for o in out):
                        out.append(r)
                rows = out
        return rows, names, tags

    def run_select(self, q):
        if q['kind'] == 'union':
            return self.run_union(q)
        srcs = []
        combos = [()]
        for kind, src, on in q['frm']:
            alias, cols, rows, tags = self.rows_of(src)
            if alias in [s[0] for s in srcs]:
                raise SqlError("Not unique table/alias: '%s'" % alias)
            srcs.append((alias, cols, tags))
            null = {c: None for c in cols}
            if kind == 'right':
                out = []
                for r in rows:
                    hit = [c + (r,) for c in combos if on is None or bool(self.cond(on, self.env(srcs, c + (r,)))[0])]
                    out += hit or [tuple({c: None for c in s[1]} for s in srcs[:-1]) + (r,)]
                combos = out
                continue
            out = []
            for c in combos:
                hit = [c + (r,) for r in rows if on is None or bool(self.cond(on, self.env(srcs, c + (r,)))[0])]
                if not hit and kind == 'left':
                    hit = [c + (null,)]
                out += hit
            combos = out
        if not q['frm']:
            combos = [()]
        if q['where'] is not None:
            self.check_names(q['where'], srcs)
            combos = [c for c in combos if bool(self.cond(q['where'], self.env(srcs, c))[0])]
        # projection list
        items = []
        for e, al in q['items']:
            if e[0] == 'star':
                hit = False
                for a, cols, _ in srcs:
                    if e[1] in (None, a):
                        hit = True
                        items += [(('col', a, c), c) for c in cols]
                if not hit:
                    raise SqlError("Unknown table '%s'" % e[1])
            else:
                self.check_names(e, srcs)
                items.append((e, al or self.label(e)))
        names = [n for _, n in items]
        agg = bool(q['group']) or any(self.has_agg(e) for e, _ in items) or (q['having'] is not None and self.has_agg(q['having']))
        alias = {n: e for e, n in items}
        explicit = {al: e for e, al in q['items'] if al}
        if agg:
            groups = []
            if q['group']:
                for c in combos:
                    env = self.env(srcs, c)
                    key = [self.ev(alias.get(g[2], g) if g[0] == 'col' and g[1] is None and not self.known(g, srcs) else g, env).v for g in q['group']]
                    for k2, rows in groups:
                        if bool(sx_and(*[self.same(a, b) for a, b in zip(key, k2)])):
                            rows.append(c)
                            break
                    else:
                        groups.append((key, [c]))
            else:
                groups = [((), combos)]
            rows = [Env(self, self.env(srcs, g[1][0]).srcs if g[1] else [(s[0], s[0], {c: None for c in s[1]}) for s in srcs],
                        [self.env(srcs, c) for c in g[1]], srcs) for g in groups]
        else:
            rows = [self.env(srcs, c) for c in combos]
        if q['having'] is not None:
            h = self.having(q['having'], items, q['group'], srcs)
            rows = [r for r in rows if bool(self.cond(h, r)[0])]
        done = {}
        if q['order']:
            keyed = []
            # with user variables a temporary table is filled row by row (columns to sort by first), then sorted
            early = any(self.has_var(e) for e, _ in items + q['order'])
            for r in rows:
                ks = []
                for e, desc in q['order']:
                    # a name is an alias before it is a column (unlike in GROUP BY and HAVING)
                    e2 = explicit[e[2]] if e[0] == 'col' and e[1] is None and e[2] in explicit else self.sub(e, alias, srcs)
                    self.check_names(e2, srcs)
                    c = self.ev(e2, r)
                    if c.tag in ('text-cipher', 'number-cipher'):
                        raise CipherMisuse("ordering by ciphertext")
                    ks.append((c.v, desc))
                keyed.append((ks, r))
                if early:
                    done[id(r)] = [self.ev(e, r) for e, _ in items]
            out = []
            for ks, r in keyed:            # stable insertion
                i = len(out)
                while i > 0 and self.before(ks, out[i - 1][0]):
                    i -= 1
                out.insert(i, (ks, r))
            rows = [r for _, r in out]
        res, tags = [], [None] * len(items)
        if not rows:
            for i, (e, _) in enumerate(items):
                if e[0] == 'col':
                    tags[i] = self.tagof(e, srcs)
        for r in rows:
            cells = done.get(id(r)) or [self.ev(e, r) for e, _ in items]
            tags = [c.tag or t for c, t in zip(cells, tags)]
            res.append(tuple(c.v for c in cells))
        if q['distinct']:
            out = []
            for r in res:
                if not any(bool(sx_and(*[self.same(a, b) for a, b in zip(r, o)])) for o in out):
                    out.append(r)
            res = out
        off = q['offset'] or 0
        if q['limit'] is not None:
            res = res[off:off + q['limit']]
        return res, names, tags

    def known(self, g, srcs):
        return any(g[2] in s[1] for s in srcs)

    def sub(self, e, alias, srcs):
        """select aliases visible in HAVING / ORDER BY"""
        if e[0] == 'col' and e[1] is None and e[2] in alias and not (self.known(e, srcs)):
            return alias[e[2]]
        if e[0] in ('lit', 'col', 'scalar', 'exists', 'case', 'fn'):
            return e
        return tuple(self.sub(x, alias, srcs) if isinstance(x, tuple) else x for x in e)

    def having(self, e, items, group, srcs):
        """names in HAVING: columns of GROUP BY, then of the select list (names or aliases); aggregates see all columns"""
        if e[0] == 'col':
            if any(g[0] == 'col' and g[2] == e[2] and (e[1] is None or g[1] in (None, e[1])) for g in group):
                return e
            for x, n in items:
                if e[1] is None and n == e[2] or x[0] == 'col' and x[2] == e[2] and x[1] in (None, e[1]) and e[1] is not None:
                    return x
            raise SqlError("Unknown column '%s' in 'having clause'" % e[2])
        if self.has_agg(e) and e[0] == 'fn' and e[1] in ('count', 'sum', 'avg', 'max', 'min', 'group_concat'):
            return e
        if e[0] in ('lit', 'scalar', 'exists'):
            return e
        if e[0] == 'case':
            return ('case', [(self.having(c, items, group, srcs), self.having(r, items, group, srcs)) for c, r in e[1]], self.having(e[2], items, group, srcs))
        if e[0] == 'fn':
            return e if e[2] == '*' else e[:2] + ([self.having(x, items, group, srcs) for x in e[2]],) + e[3:]
        if e[0] == 'in':
            return ('in', self.having(e[1], items, group, srcs), [self.having(x, items, group, srcs) for x in e[2]]) + e[3:]
        if e[0] == 'insel':
            return ('insel', self.having(e[1], items, group, srcs)) + e[2:]
        return tuple(self.having(x, items, group, srcs) if isinstance(x, tuple) else x for x in e)

    def tagof(self, e, srcs):
        for a, cols, tags in srcs:
            if e[1] in (None, a) and e[2] in cols:
                return tags.get(e[2])

    def env(self, srcs, combo):
        return Env(self, [(s[0], s[0], r) for s, r in zip(srcs, combo)], None, srcs)

    def label(self, e):
        return e[2] if e[0] == 'col' else repr(e)

    def has_agg(self, e):
        if e[0] == 'fn' and e[1] in ('count', 'sum', 'avg', 'max', 'min', 'group_concat'):
            return True
        if e[0] == 'case':
            return any(self.has_agg(c) or self.has_agg(r) for c, r in e[1]) or self.has_agg(e[2])
        if e[0] == 'fn' and e[2] != '*':
            return any(self.has_agg(x) for x in e[2])
        return any(isinstance(x, tuple) and self.has_agg(x) for x in e[1:] if x is not None)

    def has_var(self, e):
        return isinstance(e, (tuple, list)) and (e[:1] in (('var',), ('assign',)) or any(self.has_var(x) for x in e))

    def check_names(self, e, srcs):
        if e[0] == 'col':
            hits = [s for s in srcs if e[1] in (None, s[0]) and e[2] in s[1]]
            if not hits:
                raise SqlError("Unknown column '%s'" % '.'.join(x for x in e[1:] if x))
            if len(hits) > 1:
                raise SqlError("Column '%s' is ambiguous" % e[2])
            return
        if e[0] == 'fn':
            if e[2] != '*':
                for x in e[2]:
                    self.check_names(x, srcs)
            return
        if e[0] in ('scalar', 'lit'):
            return
        if e[0] == 'exists':
            return
        if e[0] == 'case':
            for c, r in e[1]:
                self.check_names(c, srcs)
                self.check_names(r, srcs)
            return self.check_names(e[2], srcs)
        if e[0] == 'insel':
            return self.check_names(e[1], srcs)
        if e[0] == 'in':
            self.check_names(e[1], srcs)
            for x in e[2]:
                self.check_names(x, srcs)
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.check_names(x, srcs)

    def before(self, ka, kb):
        """strictly before: a < b lexicographically (forks)"""
        for (a, desc), (b, _) in zip(ka, kb):
            if a is None or b is None:
                if a is None and b is None:
                    continue
                r = (a is None) != desc       # NULLs first ascending
                return r
            if bool(self.same(a, b)):
                continue
            lt = bool(a < b)
            return lt != desc
        return False

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        return self.eq(Cell(a), Cell(b))

    def eq(self, a, b):
        x, y = a.v, b.v
        if is_text(x) != is_text(y):
            raise SqlError("comparison of text with a number (%r, %r)" % (x, y))
        return x == y

    # -- expressions
    def cond(self, e, env):
        """(is true, is false); both false = NULL"""
        o = e[0]
        if o == 'and':
            a, b = self.cond(e[1], env), self.cond(e[2], env)
            return sx_and(a[0], b[0]), sx_or(a[1], b[1])
        if o == 'or':
            a, b = self.cond(e[1], env), self.cond(e[2], env)
            return sx_or(a[0], b[0]), sx_and(a[1], b[1])
        if o == 'not':
            a = self.cond(e[1], env)
            return a[1], a[0]
        if o == 'xor':
            a, b = self.cond(e[1], env), self.cond(e[2], env)
            return sx_or(sx_and(a[0], b[1]), sx_and(a[1], b[0])), sx_or(sx_and(a[0], b[0]), sx_and(a[1], b[1]))
        if o in ('istrue', 'nottrue', 'isfalse', 'notfalse'):
            c = self.cond(e[1], env)[0 if o.endswith('true') else 1]
            return (c, sx_not(c)) if o.startswith('is') else (sx_not(c), c)
        if o == 'exists':
            c = bool(self.do_select(e[1]))
            return c, not c
        if o == '<=>':
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            c = self.eq(a, b) if a.v is not None and b.v is not None else a.v is None and b.v is None
            return c, sx_not(c)
        if o == 'isnull':
            v = self.ev(e[1], env).v is None
            return v, not v
        if o == 'notnull':
            v = self.ev(e[1], env).v is None
            return not v, v
        if o in ('=', '<>', '<', '>', '<=', '>='):
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            if a.v is None or b.v is None:
                return False, False
            if o in ('=', '<>'):
                if {a.tag, b.tag} & {'order-cipher', 'number-cipher', 'text-cipher'} and a.tag != b.tag and \
                        'col' in (e[1][0],) and 'col' in (e[2][0],):
                    raise CipherMisuse("comparison of a ciphertext column with a column of another kind")
                c = self.eq(a, b)
                return (c, sx_not(c)) if o == '=' else (sx_not(c), c)
            if {a.tag, b.tag} & {'text-cipher', 'number-cipher'}:
                raise CipherMisuse("ordering comparison on ciphertext")
            if is_text(a.v) != is_text(b.v):
                raise wrong(a.tag or b.tag)("comparison of text with a number")
            c = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[o](a.v, b.v)
            return c, sx_not(c)
        if o == 'like':
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            if a.v is None or b.v is None:
                return False, False
            if not is_text(a.v) or not is_text(b.v):
                a = Cell(str(a.v) if not V.is_sym(a.v) else symex.instrument.to_text(a.v), a.tag) if not is_text(a.v) else a
                b = Cell(str(b.v) if not V.is_sym(b.v) else symex.instrument.to_text(b.v), b.tag) if not is_text(b.v) else b
            c = like(a.v, b.v)
            return c, sx_not(c)
        if o == 'in':
            t, f = False, True
            for x in e[2]:
                a = self.cond(('=', e[1], x), env)
                t, f = sx_or(t, a[0]), sx_and(f, a[1])
            return t, f
        if o == 'insel':
            t, f = False, True
            v = self.ev(e[1], env)
            for r in self.do_select(e[2]):
                if len(r) != 1:
                    raise SqlError("Operand should contain 1 column")
                if v.v is None or r[0] is None:
                    f = False
                    continue
                c = self.eq(v, Cell(r[0]))
                t, f = sx_or(t, c), sx_and(f, sx_not(c))
            return t, f
        c = self.ev(e, env)
        v = c.v
        if v is None:
            return False, False
        if c.tag:
            raise CipherMisuse("ciphertext used as a condition")
        if is_text(v):
            raise SqlError("text used as a condition")
        c = sx_not(v == 0)
        return c, sx_not(c)

    def ev(self, e, env):
        o = e[0]
        if o == 'lit':
            return Cell(e[1])
        if o == 'col':
            return env.col(e[1], e[2])
        if o == 'neg':
            c = self.ev(e[1], env)
            if c.v is None:
                return Cell(None)
            if is_text(c.v) or c.tag:
                raise wrong(c.tag)("arithmetic on text or ciphertext")
            return Cell(-c.v)
        if o in ('+', '-', '*', '/', '%', 'div', '&', '|', '^', '<<', '>>'):
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            if a.v is None or b.v is None:
                return Cell(None)
            if is_text(a.v) or is_text(b.v) or {a.tag, b.tag} & {'order-cipher', 'text-cipher'}:
                raise wrong(a.tag or b.tag)("arithmetic on text or ciphertext")
            tag = 'number-cipher' if 'number-cipher' in (a.tag, b.tag) else None
            if o in ('/', '%', 'div') and bool(self.eq(b, Cell(0))):
                return Cell(None)
            return Cell(arith(o, a.v, b.v), tag)
        if o == 'bitnot':
            c = self.ev(e[1], env)
            if c.v is None:
                return Cell(None)
            if is_text(c.v) or c.tag:
                raise wrong(c.tag)("arithmetic on text or ciphertext")
            return Cell(2 ** 64 - 1 - wrap64(c.v))
        if o == 'case':
            for c, r in e[1]:
                if bool(self.cond(c, env)[0]):
                    return self.ev(r, env)
            return self.ev(e[2], env)
        if o == 'scalar':
            r, _, tags = self.run_select(e[1])
            if len(tags) != 1:
                raise SqlError("Operand should contain 1 column")
            if len(r) > 1:
                raise SqlError("Subquery returns more than 1 row")
            return Cell(r[0][0], tags[0]) if r else Cell(None)
        if o == 'var':
            return self.vars.get(e[1]) or Cell(None)
        if o == 'assign':
            self.vars[e[1]] = self.ev(e[2], env)
            return self.vars[e[1]]
        if o == 'fn':
            return self.func(e, env)
        t, f = self.cond(e, env)
        if bool(t):
            return Cell(1)
        return Cell(0) if bool(f) else Cell(None)

    def func(self, e, env):
        f = e[1]
        if f in ('count', 'sum', 'avg', 'max', 'min'):
            if env.group is None:
                raise SqlError("aggregate outside a grouped query")
            if e[2] == '*':
                if f != 'count':
                    raise SqlError("syntax error")
                return Cell(len(env.group))
            cells = [self.ev(e[2][0], g) for g in env.group]
            vals = [c for c in cells if c.v is not None]
            tag = vals[0].tag if vals else None
            if e[3]:
                u = []
                for c in vals:
                    if not any(bool(self.same(c.v, d.v)) for d in u):
                        u.append(c)
                vals = u
            if f == 'count':
                return Cell(len(vals))
            if not vals:
                return Cell(None)
            if f in ('sum', 'avg'):
                if tag or is_text(vals[0].v):
                    raise wrong(tag)("SUM/AVG on text or ciphertext")
                s = vals[0].v
                for c in vals[1:]:
                    s = s + c.v
                return Cell(s if f == 'sum' else (s / len(vals)))
            if tag in ('text-cipher', 'number-cipher'):
                if all(identical(c.v, vals[0].v) for c in vals):
                    return vals[0]
                raise CipherMisuse("MAX/MIN over ciphertext")
            best = vals[0]
            for c in vals[1:]:
                if bool(c.v > best.v if f == 'max' else c.v < best.v):
                    best = c
            return Cell(best.v, tag)
        if f == 'any_value':
            return self.ev(e[2][0], env.group[0] if env.group else env)
        if f == 'mod':
            return self.ev(('%', e[2][0], e[2][1]), env)
        if f in ('coalesce', 'ifnull'):
            for x in e[2]:
                c = self.ev(x, env)
                if c.v is not None:
                    break
            return c
        if f == 'if':
            return self.ev(e[2][1] if bool(self.cond(e[2][0], env)[0]) else e[2][2], env)
        if f == 'nullif':
            return Cell(None) if bool(self.cond(('=', e[2][0], e[2][1]), env)[0]) else self.ev(e[2][0], env)
        if f == 'abs':
            c = self.ev(e[2][0], env)
            if c.v is None:
                return Cell(None)
            if is_text(c.v) or c.tag:
                raise wrong(c.tag)("arithmetic on text or ciphertext")
            return Cell(c.v if bool(c.v >= 0) else -c.v)
        if f in ('least', 'greatest'):
            cells = [self.ev(x, env) for x in e[2]]
            if any(c.v is None for c in cells):
                return Cell(None)
            if any(c.tag in ('text-cipher', 'number-cipher') for c in cells):
                raise CipherMisuse("ordering comparison on ciphertext")
            best = cells[0]
            for c in cells[1:]:
                if is_text(c.v) != is_text(best.v):
                    raise SqlError("comparison of text with a number")
                if bool(c.v < best.v if f == 'least' else c.v > best.v):
                    best = c
            return best
        if f == 'concat':
            cells = [self.ev(x, env) for x in e[2]]
            if any(c.v is None for c in cells):
                return Cell(None)
            items = []
            for c in cells:
                items += items_of(c.v if is_text(c.v) else symex.instrument.to_text(c.v) if V.is_sym(c.v) else str(c.v))
            return Cell(mkstr(items), 'text-cipher' if any(c.tag for c in cells) else None)
        if e[2] != '*':
            for x in e[2]:
                for g in (env.group or []) or [env]:
                    if self.ev(x, g).tag:
                        raise CipherMisuse("%s of ciphertext" % f)
        raise SqlError("FUNCTION %s does not exist" % f)


class Env:
    def __init__(self, db, srcs, group=None, specs=None):
        self.db, self.srcs, self.group, self.specs = db, srcs, group, specs

    def col(self, t, c):
        hits = [(i, s) for i, s in enumerate(self.srcs) if t in (None, s[0]) and c in s[2]]
        if not hits:
            raise SqlError("Unknown column '%s'" % c)
        if len(hits) > 1:
            raise SqlError("Column '%s' is ambiguous" % c)
        i, s = hits[0]
        tag = self.specs[i][2].get(c) if self.specs else self.db.tags.get((s[1], c))
        return Cell(s[2][c], tag)
