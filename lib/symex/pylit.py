"""ast.literal_eval for symbolic source text: a single quoted Python string or a number."""
import z3
from . import values as V
from .values import SymStr
from .core import cur, Unsupported


def _is(c, *codes):
    if isinstance(c, V.Atom):
        d = [x for x in codes if c.may_contain(chr(x))]
        if d and not getattr(c, 'unforgeable', False):
            raise Unsupported("literal_eval over opaque text %r" % (c,))
        return False
    if isinstance(c, int):
        return c in codes
    return cur().branch(z3.Or(*[c == x for x in codes]))


def literal_eval(src):
    if not isinstance(src, SymStr):
        raise Unsupported("literal_eval of %s" % type(src))
    items = list(src.items)
    while items and _is(items[0], 32, 9):
        items.pop(0)
    if len(items) == 1 and isinstance(items[0], (V.NumAtom, V.FloatAtom)):
        return items[0].v
    if not items:
        raise SyntaxError("unexpected EOF")
    if not _is(items[0], 34, 39):
        raise Unsupported("literal_eval of symbolic non-string")
    q = items[0]
    if not isinstance(q, int):
        q = 34 if cur().branch(q == 34) else 39
    body = items[1:]
    triple = len(body) >= 2 and _is(body[0], q) and _is(body[1], q)
    if triple:
        body = body[2:]
        if len(body) == 0:
            raise SyntaxError("unterminated triple-quoted string literal")
    out, i = [], 0
    closed = False
    while i < len(body):
        c = body[i]
        if _is(c, q):
            if not triple:
                closed = True
                i += 1
                break
            if i + 2 < len(body) and _is(body[i + 1], q) and _is(body[i + 2], q):
                closed = True
                i += 3
                break
            out.append(c)
            i += 1
        elif not triple and _is(c, 10, 13):
            raise SyntaxError("unterminated string literal")
        elif _is(c, 0):
            raise SyntaxError("source code string cannot contain null bytes")
        elif _is(c, 92):
            if i + 1 >= len(body):
                raise SyntaxError("unterminated string literal")
            e = body[i + 1]
            simple = {92: 92, 39: 39, 34: 34, 97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}
            for k, v in simple.items():
                if _is(e, k):
                    out.append(v)
                    i += 2
                    break
            else:
                if _is(e, 10):
                    i += 2
                elif _is(e, 120, 117, 85, 78) or (not isinstance(e, V.Atom) and V._fork(V.in_ranges(e, [(48, 55)]))):
                    raise Unsupported("numeric escape in literal")
                else:
                    out.append(92)
                    i += 1
        elif triple and _is(c, 13):
            raise Unsupported("carriage return in triple-quoted literal")
        else:
            out.append(c)
            i += 1
    if not closed:
        raise SyntaxError("unterminated string literal")
    rest = body[i:]
    for c in rest:
        if not _is(c, 32, 9, 10):
            # adjacent text: implicit concatenation or a syntax error
            if _is(c, 34, 39):
                raise Unsupported("implicit concatenation")
            raise SyntaxError("invalid syntax")
    return SymStr.make(out)
