"""Backtracking regular-expression matcher over symbolic text, driven by CPython's own parse of the pattern.

Semantics follow sre (ordered alternatives, greedy/lazy repeats, look-around, groups); every test of a
symbolic character is a solver-backed fork.
"""
import re
import re._constants as C
import re._parser as P

import z3
from . import values as V
from .values import SymStr
from .core import cur, Unsupported

_CATS = {}


def _cat_ranges(cat):
    if cat not in _CATS:
        pat = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s',
               C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}[cat]
        rx = re.compile(pat)
        out, st = [], None
        for cp in range(0x110000):
            ok = rx.match(chr(cp)) is not None
            if ok and st is None:
                st = cp
            elif not ok and st is not None:
                out.append((st, cp - 1))
                st = None
        if st is not None:
            out.append((st, 0x10FFFF))
        _CATS[cat] = out
    return _CATS[cat]


_ASCII_CATS = {C.CATEGORY_DIGIT: [(48, 57)], C.CATEGORY_SPACE: [(9, 13), (32, 32)],
               C.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)]}


def _clip(r):
    hi = getattr(cur(), 'max_code', None)
    if hi is not None:
        r = [(a, min(b, hi)) for a, b in r if a <= hi]
    return r


_FOLD = {}


def _case_variants(lo, hi):
    """ranges of code points that match [lo-hi] under IGNORECASE (simple folding, exact via re)"""
    key = (lo, hi)
    if key not in _FOLD:
        if hi - lo > 300:
            _FOLD[key] = [(lo, hi)]     # wide ranges: variants are inside in practice
        else:
            s = set()
            for c in range(lo, hi + 1):
                s.add(c)
                ch = chr(c)
                for v in (ch.lower(), ch.upper()):
                    if len(v) == 1:
                        s.add(ord(v))
                if ch in 'kK':
                    s.add(0x212A)
                if ch in 'sS':
                    s.add(0x17F)
                if ch in 'iI':
                    s.update((0x130, 0x131))
            out = []
            for c in sorted(s):
                if out and out[-1][1] == c - 1:
                    out[-1] = (out[-1][0], c)
                else:
                    out.append((c, c))
            _FOLD[key] = out
    return _FOLD[key]


class M:
    def __init__(self, pattern, items, pos, endpos):
        self.p = pattern
        self.items = items
        self.n = len(items) if endpos is None else min(endpos, len(items))
        self.flags = pattern.flags
        self.tree = P.parse(pattern.pattern, pattern.flags & ~re.DEBUG)
        self.groups = {}

    # --- single character tests -> bool (forking)
    def test(self, i, cond_fn):
        if i >= self.n:
            return False
        x = self.items[i]
        if isinstance(x, V.Atom):
            return cond_fn.atom(x) if hasattr(cond_fn, 'atom') else self._atom(x, cond_fn)
        c = cond_fn(x)
        return V._fork(c) if not isinstance(c, bool) else c

    def _atom(self, x, cond_fn):
        raise Unsupported("regular expression over opaque text %r" % (x,))

    def _alphabet(self, ops):
        """all character ranges a match can consist of, None when unbounded"""
        out = []
        for op, av in ops:
            if op is C.LITERAL:
                out.append((av, av))
            elif op is C.IN:
                for o, a in av:
                    if o is C.LITERAL:
                        out.append((a, a))
                    elif o is C.RANGE:
                        out.append(a)
                    elif o is C.CATEGORY:
                        out.extend(_cat_ranges(a))
                    else:
                        return None
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                r = self._alphabet(av[2])
                if r is None:
                    return None
                out.extend(r)
            elif op is C.SUBPATTERN:
                r = self._alphabet(av[3])
                if r is None:
                    return None
                out.extend(r)
            elif op is C.BRANCH:
                for alt in av[1]:
                    r = self._alphabet(alt)
                    if r is None:
                        return None
                    out.extend(r)
            elif op is not C.AT:
                return None
        return out

    def impossible(self, full):
        """text with opaque parts: decided by one ordinary character that no whole match can contain"""
        if not any(isinstance(x, V.Atom) for x in self.items[:self.n]) or self.flags & re.IGNORECASE:
            return False
        ops = list(self.tree)
        if not full and not (ops and ops[0] == (C.AT, C.AT_BEGINNING) and ops[-1] in ((C.AT, C.AT_END), (C.AT, C.AT_END_STRING))) or \
                self.flags & re.MULTILINE:
            return False
        al = self._alphabet(ops)
        return al is not None and any(isinstance(x, int) and x != 10 and not any(a <= x <= b for a, b in al)
                                      for x in self.items[:self.n])

    def rng(self, ranges, flags, neg=False):
        if flags & re.IGNORECASE:
            rr = []
            for lo, hi in ranges:
                rr.extend(_case_variants(lo, hi))
            ranges = rr

        def f(x):
            if isinstance(x, int):
                r = any(lo <= x <= hi for lo, hi in ranges)
                return (not r) if neg else r
            rs = _clip(ranges)
            r = V.in_ranges(x, rs) if rs else z3.BoolVal(False)
            return z3.Not(r) if neg else r
        return f

    def in_set(self, av, flags):
        neg, ranges = False, []
        for op, a in av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                ranges.append((a, a))
            elif op is C.RANGE:
                ranges.append(a)
            elif op is C.CATEGORY:
                if flags & re.ASCII and a in _ASCII_CATS:
                    ranges.extend(_ASCII_CATS[a])
                else:
                    ranges.extend(_cat_ranges(a))
            else:
                raise Unsupported("regex set op %s" % op)
        return self.rng(ranges, flags, neg)

    def is_word(self, i):
        if i < 0 or i >= self.n:
            return False
        return self.test(i, self.rng(_cat_ranges(C.CATEGORY_WORD), 0))

    # --- matcher: generator of end positions; groups kept in self.groups with undo
    def seq(self, ops, k, i, flags, cont):
        """match ops[k:] at i then call cont(j) -> truthy result"""
        if k == len(ops):
            return cont(i)
        op, av = ops[k]

        def nxt(j):
            return self.seq(ops, k + 1, j, flags, cont)

        if op is C.LITERAL:
            return nxt(i + 1) if self.test(i, self.rng([(av, av)], flags)) else None
        if op is C.NOT_LITERAL:
            return nxt(i + 1) if self.test(i, self.rng([(av, av)], flags, True)) else None
        if op is C.ANY:
            if flags & re.DOTALL:
                return nxt(i + 1) if i < self.n else None
            return nxt(i + 1) if self.test(i, self.rng([(10, 10)], 0, True)) else None
        if op is C.IN:
            return nxt(i + 1) if self.test(i, self.in_set(av, flags)) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(alt, 0, i, flags, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            g, addf, delf, sub = av
            f2 = (flags | addf) & ~delf

            def done(j):
                if g is not None:
                    old = self.groups.get(g)
                    self.groups[g] = (i, j)
                    r = nxt(j)
                    if r is None:
                        if old is None:
                            self.groups.pop(g, None)
                        else:
                            self.groups[g] = old
                    return r
                return nxt(j)
            return self.seq(sub, 0, i, f2, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is C.POSSESSIVE_REPEAT:
                raise Unsupported("possessive repeat")
            return self.repeat(sub, lo, hi, i, flags, nxt, op is C.MAX_REPEAT)
        if op is C.AT:
            ok = self.at(av, i, flags)
            return nxt(i) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d == 1:
                r = self.seq(sub, 0, i, flags, lambda j: (j,))
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported("variable look-behind")
                r = self.seq(sub, 0, i - lo, flags, lambda j: (j,) if j == i else None) if i - lo >= 0 else None
            return nxt(i) if (r is not None) == (op is C.ASSERT) else None
        if op is C.GROUPREF:
            g = self.groups.get(av)
            if g is None:
                return None
            a, b = g
            for t in range(a, b):
                if i >= self.n:
                    return None
                x, y = self.items[t], self.items[i]
                if flags & re.IGNORECASE:
                    x = V._case_map(x, 'lower')[0]
                    y = V._case_map(y, 'lower')[0]
                if not V._fork(V._zbool(V.item_eq(x, y))):
                    return None
                i += 1
            return nxt(i)
        if op is C.ATOMIC_GROUP:
            r = self.seq(av, 0, i, flags, lambda j: (j,))
            return nxt(r[0]) if r is not None else None
        if op is C.GROUPREF_EXISTS:
            g, yes, no = av
            if self.groups.get(g) is not None:
                return self.seq(yes, 0, i, flags, nxt)
            return self.seq(no, 0, i, flags, nxt) if no else nxt(i)
        raise Unsupported("regex op %s" % op)

    def repeat(self, sub, lo, hi, i, flags, nxt, greedy):
        hi = self.n + 1 if hi is C.MAXREPEAT else hi

        def step(count, j):
            def more():
                if count >= hi:
                    return None
                return self.seq(sub, 0, j, flags,
                                lambda t: None if (t == j and count >= lo) else step(count + 1, t))
            if count < lo:
                return more()
            if greedy:
                r = more()
                return r if r is not None else nxt(j)
            r = nxt(j)
            return r if r is not None else more()
        return step(0, i)

    def at(self, av, i, flags):
        if av is C.AT_BEGINNING:
            if flags & re.MULTILINE and i > 0:
                return self.test(i - 1, self.rng([(10, 10)], 0))
            return i == 0
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END:
            if i == self.n:
                return True
            if flags & re.MULTILINE:
                return self.test(i, self.rng([(10, 10)], 0))
            return i == self.n - 1 and self.test(i, self.rng([(10, 10)], 0))
        if av is C.AT_END_STRING:
            return i == self.n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = self.is_word(i - 1) != self.is_word(i)
            return w == (av is C.AT_BOUNDARY)
        raise Unsupported("regex position %s" % av)

    def run(self, i, full=False):
        self.groups = {}
        if self.impossible(full):
            return None
        r = self.seq(self.tree, 0, i, self.flags,
                     (lambda j: (j,) if j == self.n else None) if full else (lambda j: (j,)))
        if r is None:
            return None
        return Match(self, i, r[0], dict(self.groups))


class Match:
    def __init__(self, m, start, end, groups):
        self.re = m.p
        self.items = m.items
        self.cls = m.cls
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.string = m.string
        self.pos = 0
        self.endpos = len(m.items)

    def _num(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        return self._g.get(self._num(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        g = self._num(g)
        if g > self.re.groups:
            raise IndexError("no such group")
        if g not in self._g:
            return None
        a, b = self._g[g]
        return self.cls.make(self.items[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i) if i in self._g else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (self._one(i) if i in self._g else default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        gs = [g for g in self._g if g]
        return max(gs, key=lambda g: (self._g[g][1], -g)) if gs else None

    def __bool__(self):
        return True


def _mk(p, s, pos=0, endpos=None):
    from .values import SymBytes
    cls = SymStr if isinstance(p.pattern, str) else SymBytes
    items = cls._coerce(s)
    if items is None:
        raise TypeError("expected string or bytes-like object")
    m = M(p, items, pos, endpos)
    m.cls = cls
    m.string = s
    return m


def pattern_method(p, name, a, k):
    if name in ('match', 'fullmatch'):
        s = a[0] if a else k['string']
        pos = a[1] if len(a) > 1 else 0
        end = a[2] if len(a) > 2 else None
        pos = int(pos) if not isinstance(pos, V.SymInt) else cur().concretize(pos.e)
        return _mk(p, s, pos, end).run(pos, name == 'fullmatch')
    if name == 'search':
        m = _mk(p, a[0], 0, a[2] if len(a) > 2 else None)
        i = a[1] if len(a) > 1 else 0
        while i <= m.n:
            r = m.run(i)
            if r is not None:
                return r
            i += 1
        return None
    if name == 'finditer':
        return iter(_all(p, a[0]))
    if name == 'findall':
        out = []
        for r in _all(p, a[0]):
            if p.groups == 0:
                out.append(r.group())
            elif p.groups == 1:
                out.append(r.group(1) if r.group(1) is not None else '')
            else:
                out.append(tuple(x if x is not None else '' for x in r.groups()))
        return out
    if name == 'split':
        maxsplit = a[1] if len(a) > 1 else k.get('maxsplit', 0)
        m = _mk(p, a[0])
        out, last = [], 0
        for n, r in enumerate(_all(p, a[0])):
            if maxsplit and n >= maxsplit:
                break
            out.append(m.cls.make(m.items[last:r.start()]))
            out.extend(r.groups())
            last = r.end()
        out.append(m.cls.make(m.items[last:]))
        return out
    if name in ('sub', 'subn'):
        repl, s = a[0], a[1]
        count = a[2] if len(a) > 2 else k.get('count', 0)
        m = _mk(p, s)
        out, last, n = '' if m.cls is SymStr else b'', 0, 0
        for r in _all(p, s):
            if count and n >= count:
                break
            n += 1
            out = out + m.cls.make(m.items[last:r.start()])
            out = out + _expand(repl, r)
            last = r.end()
        out = out + m.cls.make(m.items[last:])
        return (out, n) if name == 'subn' else out
    raise Unsupported("pattern.%s" % name)


def _expand(repl, r):
    if callable(repl):
        return repl(r)
    if isinstance(repl, (V.SymStr, V.SymBytes)):
        if repl.has_atoms():
            return repl
        for c in repl.items:
            if V._fork(V._zbool(V.item_eq(c, 92))):
                raise Unsupported("backslash in symbolic replacement")
        return repl
    tpl = P.parse_template(repl, r.re)
    out = ''
    for x in tpl:
        if isinstance(x, int):
            g = r.group(x)
            out = out + (g if g is not None else '')
        else:
            out = out + x
    return out


def _all(p, s):
    m = _mk(p, s)
    out, i, last_empty = [], 0, None
    while i <= m.n:
        r = m.run(i)
        if r is None:
            i += 1
            continue
        if r.end() == r.start():
            out.append(r)
            # sre: after an empty match, retry a non-empty match at the same position is allowed from 3.7
            i += 1
        else:
            out.append(r)
            i = r.end()
    return out
