"""Instrumenting importer: loads modules from /repo's current source with calls, `in`, subscripts,
f-strings and `%` routed through hooks that understand symbolic values.

With only concrete operands every hook does exactly what the plain operation does.
"""
import ast
import builtins
import decimal
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import math
import operator
import os
import re
import sys
import types

import z3
from . import values as V
from .values import (SymInt, SymBool, SymFloat, SymStr, SymBytes, SYMSET, deep_sym, NumAtom, FloatAtom, zi, mkint)
from .core import Unsupported, cur

REPO = os.environ.get('VERIF_REPO', '/repo')

_SKIP_CALLS = {'export', 'expect', 'delay_import', 'super', 'locals', 'globals', 'vars', 'dir', 'exec', '__import__'}


class Rewriter(ast.NodeTransformer):
    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS:
            return node
        return ast.copy_location(ast.Call(func=self._n('sx__call'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = 'sx__in' if isinstance(node.ops[0], ast.In) else 'sx__notin'
            return ast.copy_location(ast.Call(func=self._n(f), args=[node.left, node.comparators[0]], keywords=[]),
                                     node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Call(func=self._n('sx__get'), args=[node.value, node.slice], keywords=[]),
                                     node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            # evaluation order of `obj[idx] = value` is value, obj, idx
            return ast.copy_location(ast.Expr(value=ast.Call(
                func=self._n('sx__set'), args=[node.value, t.value, t.slice], keywords=[])), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        ret = node.returns
        node.returns = None
        self.generic_visit(node)
        node.returns = ret
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                if isinstance(spec, ast.JoinedStr):
                    spec = self._plain(spec)
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=self._n('sx__fstr'), args=parts, keywords=[]), node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    def _plain(self, js):
        return js

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self._n('sx__mod'), args=[node.left, node.right], keywords=[]),
                                     node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None or not isinstance(k, ast.Constant) for k in node.keys):
            items = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    items.append(ast.Tuple(elts=[ast.Constant(value=None), ast.Constant(value=True), v], ctx=ast.Load()))
                else:
                    items.append(ast.Tuple(elts=[k, ast.Constant(value=False), v], ctx=ast.Load()))
            return ast.copy_location(ast.Call(func=self._n('sx__dict'), args=items, keywords=[]), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=self._n('sx__class'), args=[node.value], keywords=[]), node)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pairs = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=self._n('sx__dictcomp'), args=[ast.copy_location(pairs, node)], keywords=[]), node)

    def visit_Delete(self, node):
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        return node


# ---------------------------------------------------------------- runtime hooks

_HANDLERS = {}


def handler(*fns, always=False):
    def deco(h):
        for f in fns:
            _HANDLERS[id(f)] = (f, h, always)
        return h
    return deco


_BM = type(len)                      # builtin_function_or_method
_MD = type(str.lower)                # method_descriptor
_SEQ = (str, bytes)
_PATTERN = type(re.compile(""))
_BM2 = type(re.compile("").match)      # builtin_method


def call(f, /, *a, **k):
    h = _HANDLERS.get(id(f))
    if h is not None and h[0] is f:
        if h[2] or any(deep_sym(x) for x in a) or (k and any(deep_sym(x) for x in k.values())):
            return h[1](*a, **k)
        return f(*a, **k)
    t = type(f)
    if t is _BM or t is _BM2:
        s = f.__self__
        ts = type(s)
        if ts is dict:
            return _dict_method(s, f.__name__, f, a, k)
        if ts is str or ts is bytes:
            if a and any(deep_sym(x) for x in a) or k and any(deep_sym(x) for x in k.values()):
                return _str_method(s, f.__name__, a, k)
            if f.__name__ == 'join' and a and not isinstance(a[0], (list, tuple, str, bytes)):
                parts = list(a[0])
                if any(type(p) in SYMSET for p in parts):
                    return _str_method(s, 'join', (parts,), k)
                return f(parts)
        elif ts is list:
            if f.__name__ in ('index', 'remove', 'count') and (a and type(a[0]) in SYMSET or deep_sym(s, 1)):
                return _list_method(s, f.__name__, a)
            if f.__name__ == 'sort' and (deep_sym(s) or k.get('key') is not None):
                s[:] = _sorted(s, **k)
                return None
        elif ts is set:
            if a and any(deep_sym(x) for x in a):
                return _set_method(s, f.__name__, a)
        elif ts is _PATTERN:
            if any(type(x) in SYMSET for x in a):
                from . import regex
                return regex.pattern_method(s, f.__name__, a, k)
        elif s is bytes and f.__name__ == 'fromhex' and type(a[0]) is SymStr:
            return _fromhex(a[0])
        elif any(type(x) in SYMSET for x in a) and f.__name__ == '__new__':
            raise Unsupported("__new__ with symbolic argument")
        return f(*a, **k)
    if t is _MD and a and type(a[0]) in SYMSET:
        return call(getattr(a[0], f.__name__), *a[1:], **k)
    if t is _MD and a and type(a[0]) in (str, bytes, dict, list):
        return call(getattr(a[0], f.__name__), *a[1:], **k)
    if t is type and f in _TYPES_CALLED and any(deep_sym(x) for x in a):
        return _TYPES_CALLED[f](*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return call(f.func, *(f.args + a), **kk)
    return f(*a, **k)


def _fromhex(x):
    from .values import HexAtom, Atom
    out, it = [], list(x.items)
    i = 0
    ctx = cur()

    def nib(c):
        if isinstance(c, int):
            try:
                return int(chr(c), 16)
            except ValueError:
                raise ValueError("non-hexadecimal number found in fromhex() arg")
        for lo, hi, d in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
            if ctx.branch(z3.And(c >= lo, c <= hi)):
                return c - d
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    while i < len(it):
        if isinstance(it[i], HexAtom):
            out.append(it[i].src)
            i += 1
        elif isinstance(it[i], Atom) or i + 1 >= len(it) or isinstance(it[i + 1], Atom):
            raise Unsupported("fromhex of %r" % (x,))
        else:
            out.append(nib(it[i]) * 16 + nib(it[i + 1]))
            i += 2
    return SymBytes.make(out)


def _str_method(s, name, a, k):
    """method of a concrete str/bytes with symbolic arguments"""
    if name == 'join':
        parts = list(a[0])
        cls = SymStr if isinstance(s, str) else SymBytes
        out = []
        sep = cls._coerce(s)
        for i, p in enumerate(parts):
            if i:
                out = out + sep
            b = cls._coerce(p)
            if b is None:
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, pytype(p).__name__))
            out = out + b
        return cls.make(out)
    if name == 'format':
        return _format(s, a, k)
    if name in ('startswith', 'endswith'):
        arg = a[0]
        if isinstance(arg, tuple):
            return any(bool(_str_method(s, name, (x,) + a[1:], k)) for x in arg)
    lifted = (SymStr if isinstance(s, str) else SymBytes)(list(map(ord, s)) if isinstance(s, str) else list(s))
    return getattr(lifted, name)(*a, **k)


def _format(s, a, k):
    import string
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out = out + lit
        if field is None:
            continue
        if spec and '{' in spec:
            raise Unsupported("nested format spec")
        name = field
        if name == '':
            name = str(auto)
            auto += 1
        first, rest = __import__('_string').formatter_field_name_split(name)
        obj = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else sx_get(obj, i)
        out = out + _fmt_value(obj, ord(conv) if conv else -1, spec)
    return out


def _dict_method(d, name, f, a, k):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and a and (type(a[0]) in SYMSET or _symkeys(d)):
        key = find_key(d, a[0])
        if name == 'get':
            return d[key] if key is not _MISS else (a[1] if len(a) > 1 else None)
        if name == '__contains__':
            return key is not _MISS
        if name == '__getitem__':
            if key is _MISS:
                raise KeyError(_kerepr(a[0]))
            return d[key]
        if name == 'pop':
            if key is _MISS:
                if len(a) > 1:
                    return a[1]
                raise KeyError(_kerepr(a[0]))
            return d.pop(key)
        if name == 'setdefault':
            if key is _MISS:
                d[_wrapkey(a[0])] = a[1] if len(a) > 1 else None
                return a[1] if len(a) > 1 else None
            return d[key]
    if name == 'update':
        for src in a:
            items = src.items() if hasattr(src, 'items') else src
            for kk, vv in list(items):
                sx_set(vv, d, kk)
        for kk, vv in k.items():
            d[kk] = vv
        return None
    if name in ('keys', 'items', '__iter__') and _symkeys(d):
        ks = [x.v if isinstance(x, SymKey) else x for x in d]
        if name == 'keys' or name == '__iter__':
            return ks
        return [(x.v if isinstance(x, SymKey) else x, v) for x, v in d.items()]
    return f(*a, **k)


class SymKey:
    """Dictionary key holding a symbolic value; equal only to itself (distinctness is forked on insertion)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o


_MISS = object()


def _kerepr(k):
    return k if type(k) not in SYMSET else '<symbolic key>'


def _symkeys(d):
    for k in d:
        if type(k) is SymKey:
            return True
    return False


def _wrapkey(k):
    return SymKey(k) if type(k) in SYMSET else k


def find_key(d, k):
    if type(k) not in SYMSET:
        try:
            if k in d:
                return k
        except TypeError:
            raise
        for x in d:
            if type(x) is SymKey and x.v == k:
                return x
        return _MISS
    for x in d:
        y = x.v if type(x) is SymKey else x
        if y == k:
            return x
    return _MISS


def _list_method(s, name, a):
    if name == 'index':
        for i, x in enumerate(s):
            if x == a[0]:
                return i
        raise ValueError("%r is not in list")
    if name == 'remove':
        for i, x in enumerate(s):
            if x == a[0]:
                del s[i]
                return None
        raise ValueError("list.remove(x): x not in list")
    n = 0
    for x in s:
        if x == a[0]:
            n += 1
    return n


def _set_method(s, name, a):
    raise Unsupported("set.%s with symbolic argument" % name)


def sx_in(a, b):
    ta, tb = type(a), type(b)
    if tb is SymStr or tb is SymBytes:
        return a in b
    if ta in SYMSET:
        if tb is dict:
            return find_key(b, a) is not _MISS
        if tb is str:
            if ta is not SymStr:
                raise TypeError("'in <string>' requires string as left operand")
            return SymStr([ord(c) for c in b])._contains_items(list(a.items))
        if tb is bytes:
            return SymBytes(list(b)).__contains__(a)
        if tb is range:
            if ta is SymInt and b.step == 1:
                return bool(V.sx_and(a >= b.start, a < b.stop))
        if tb in (list, tuple, set, frozenset, type({}.keys()), type({}.values())):
            for x in b:
                if type(x) is SymKey:
                    x = x.v
                if x == a:
                    return True
            return False
        return a in b
    if tb is dict and b and _symkeys(b):
        return find_key(b, a) is not _MISS
    return a in b


def sx_notin(a, b):
    return not sx_in(a, b)


def sx_get(obj, i):
    t = type(obj)
    if t is dict:
        if type(i) in SYMSET:
            k = find_key(obj, i)
            if k is _MISS:
                raise KeyError(_kerepr(i))
            return obj[k]
        try:
            return obj[i]
        except KeyError:
            if _symkeys(obj):
                k = find_key(obj, i)
                if k is not _MISS:
                    return obj[k]
            raise
    if t in (str, bytes) and type(i) is SymInt:
        n = len(obj)
        c = cur()
        if not c.branch(z3.And(i.e >= -n, i.e < n)):
            raise IndexError("string index out of range")
        return obj[c.concretize(i.e)]
    return obj[i]


def sx_set(value, obj, i):
    if type(obj) is dict and (type(i) in SYMSET or _symkeys(obj)):
        k = find_key(obj, i)
        obj[_wrapkey(i) if k is _MISS else k] = value
        return
    obj[i] = value


def sx_dict(*items):
    d = {}
    for k, star, v in items:
        if star:
            for kk in v.keys():
                sx_set(v[kk], d, kk)
        else:
            sx_set(v, d, k)
    return d


def sx_class(x):
    t = type(x)
    return t.sx_type if t in SYMSET else x.__class__


def sx_dictcomp(pairs):
    for k, v in pairs:
        if type(k) in SYMSET:
            break
    else:
        return dict(pairs)
    d = {}
    for k, v in pairs:
        sx_set(v, d, k)
    return d


def to_text(v):
    """str(v) on a possibly symbolic value"""
    t = type(v)
    if t is SymStr:
        return v
    if t is SymInt:
        return SymStr([NumAtom(v)])
    if t is SymFloat:
        return SymStr([FloatAtom(v)])
    if t is SymBool:
        return 'True' if v else 'False'
    if t is SymBytes:
        raise Unsupported("str(bytes)")
    if t in (list, tuple, dict, set) and deep_sym(v):
        return to_repr(v)
    return str(v)


def to_repr(v):
    t = type(v)
    if t is SymStr:
        out = [ord("'")]
        for i in v.items:
            if isinstance(i, V.Atom):
                out.append(i)
                continue
            if isinstance(i, int):
                out.extend(ord(c) for c in repr(chr(i))[1:-1])
                continue
            c = cur()
            if c.branch(z3.Or(i == 39, i == 92, i < 32, i >= 127)):
                # quoting style depends on the whole text; keep it out of reach
                raise Unsupported("repr of text with special characters")
            out.append(i)
        out.append(ord("'"))
        return SymStr.make(out)
    if t in (SymInt, SymFloat, SymBool):
        return to_text(v)
    if t is SymBytes:
        raise Unsupported("repr(bytes)")
    if deep_sym(v):
        if t is list:
            return '[' + call(', '.join, [to_repr(x) for x in v]) + ']'
        if t is tuple:
            return '(' + call(', '.join, [to_repr(x) for x in v]) + (',)' if len(v) == 1 else ')')
        if t is dict:
            return '{' + call(', '.join, [to_repr(k.v if type(k) is SymKey else k) + ': ' + to_repr(x)
                                          for k, x in v.items()]) + '}'
        raise Unsupported("repr of %s" % t)
    return repr(v)


def _fmt_value(v, conv, spec):
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_text(v)
    elif conv == 97:
        v = ascii(v)
    if type(v) in SYMSET:
        if spec in ('', 's', 'd'):
            return to_text(v)
        if type(v) is SymInt:
            m = re.match(r'^0(\d+)([bdxX]?)$', spec)
            if m:
                return format(cur().concretize(v.e), spec)
        raise Unsupported("format spec %r" % spec)
    if spec == '' and deep_sym(v):
        return to_text(v)
    if spec == '':
        return to_text_obj(v)
    return format(v, spec)


def to_text_obj(v):
    r = format(v, '')
    return r


def sx_fstr(*parts):
    out = ''
    for p in parts:
        if type(p) is str:
            out = out + p
        else:
            v, conv, spec = p
            out = out + _fmt_value(v, conv, spec)
    return out


_PCT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([sdrifxXgeEFGcoa%])')


def sx_mod(a, b):
    if type(a) is str:
        if deep_sym(b):
            return _pct(a, b)
        return a % b
    return a % b


def _pct(fmt, args):
    out, pos, n = '', 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    for m in _PCT.finditer(fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out = out + '%'
            continue
        if key is not None:
            v = sx_get(args, key)
        else:
            if n >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[n]
            n += 1
        if deep_sym(v):
            if flags or width or prec:
                raise Unsupported("%%-format flags on a symbolic value: %s" % m.group(0))
            if conv == 's':
                out = out + to_text(v)
            elif conv == 'r':
                out = out + to_repr(v)
            elif conv in 'di':
                if type(v) is SymStr:
                    raise TypeError("%d format: a real number is required, not str")
                out = out + to_text(call(int, v))
            else:
                raise Unsupported("%%%s on a symbolic value" % conv)
        else:
            out = out + (m.group(0) % ({key: v} if key is not None else (v,)))
    if '%' in fmt[pos:] and fmt[pos:].strip('%'):
        pass
    if key_used(args) is False and n < len(tup) and isinstance(args, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return out + fmt[pos:]


def key_used(args):
    return isinstance(args, dict)


def pytype(x):
    t = type(x)
    return t.sx_type if t in SYMSET else t


# ---- builtin handlers -------------------------------------------------

@handler(isinstance, always=True)
def _isinstance(x, types_):
    t = type(x)
    if t in SYMSET:
        st = t.sx_type
        if isinstance(types_, tuple):
            return any(_isinstance(x, y) for y in types_)
        if isinstance(types_, types.UnionType):
            return any(_isinstance(x, y) for y in types_.__args__)
        if types_ is t:
            return True
        try:
            return issubclass(st, types_)
        except TypeError:
            raise
    return isinstance(x, types_)


@handler(type, always=True)
def _type(*a, **k):
    if len(a) == 1 and not k:
        return pytype(a[0])
    return type(*a, **k)


@handler(len)
def _len(x):
    if type(x) in (SymStr, SymBytes):
        return x.length()
    return len(x)


@handler(str, always=True)
def _str(x='', *a, **k):
    if type(x) is SymBytes:
        return x.decode(*a, **k)
    if isinstance(x, BaseException):
        if len(x.args) == 1 and V.is_sym(x.args[0]) and type(x).__str__ in (BaseException.__str__, Exception.__str__):
            return to_text(x.args[0])
        return str(x)
    if not V.is_sym(x) and type(x) not in (list, tuple, dict):
        return str(x, *a, **k)
    return to_text(x)


@handler(repr)
def _repr(x):
    return to_repr(x)


@handler(format)
def _formatfn(v, spec=''):
    return _fmt_value(v, -1, spec)


@handler(print, always=True)
def _print(*a, **k):
    return None


@handler(int)
def _int(x=0, base=None):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is SymFloat or t is V.SymDec:
        return x.trunc()
    if t is SymStr:
        return parse_int(x, base or 10)
    if t in (list, dict, tuple, set):
        return int(x)       # a TypeError
    raise Unsupported("int(%s)" % t)


@handler(decimal.Decimal)
def _decimal(x=0, context=None):
    t = type(x)
    if t is V.SymDec:
        return x
    if t is SymInt:
        return V.SymDec(V.zr(x))
    if t is SymFloat:
        if getattr(cur(), 'round_model', None) is None:
            return V.SymDec(x.e)
        return V.SymDec(x.e)
    if t is SymStr and len(x.items) == 1:
        if isinstance(x.items[0], NumAtom):
            return V.SymDec(V.zr(x.items[0].v))
        if isinstance(x.items[0], FloatAtom):
            return V.SymDec(x.items[0].v.decimal())
    if t is SymStr:
        try:
            v = parse_float(x)
        except ValueError:
            raise decimal.InvalidOperation([decimal.ConversionSyntax])
        return V.SymDec(v.e) if isinstance(v, SymFloat) else decimal.Decimal(v)
    raise Unsupported("Decimal(%s)" % t)


def parse_int(x, base=10):
    items = list(x.items)
    if any(isinstance(i, V.Atom) for i in items):
        if len(items) == 1 and isinstance(items[0], NumAtom) and base == 10:
            return items[0].v
        if len(items) == 1 and hasattr(items[0], 'as_int'):
            return items[0].as_int()
        if len(items) == 1 and isinstance(items[0], FloatAtom):
            raise ValueError("invalid literal for int()")
        raise Unsupported("int() of opaque text %r" % (x,))
    s = x.strip()
    if not isinstance(s, SymStr):
        return int(s, base)
    items = list(s.items)
    c = cur()
    neg = False
    if items and V._fork(V.in_ranges(items[0], [(43, 43), (45, 45)])):
        neg = V._fork(V._zbool(V.item_eq(items[0], 45)))
        items = items[1:]
    if not items:
        raise ValueError("invalid literal for int()")
    v = z3.IntVal(0)
    for k, d in enumerate(items):
        z = V._zc(d)
        if base == 10:
            if c.branch(z3.And(z >= 48, z <= 57)):
                v = v * 10 + (z - 48)
            elif c.branch(z == 95) and 0 < k < len(items) - 1:
                raise Unsupported("underscore in number")
            elif c.branch(z >= 128):
                raise Unsupported("non-ASCII digit")
            else:
                raise ValueError("invalid literal for int() with base 10")
        elif base == 16:
            if c.branch(z3.And(z >= 48, z <= 57)):
                v = v * 16 + (z - 48)
            elif c.branch(z3.And(z >= 97, z <= 102)):
                v = v * 16 + (z - 87)
            elif c.branch(z3.And(z >= 65, z <= 70)):
                v = v * 16 + (z - 55)
            else:
                raise ValueError("invalid literal for int() with base 16")
        else:
            raise Unsupported("int base %d" % base)
    return mkint(-v if neg else v)


@handler(float)
def _float(x=0.0):
    t = type(x)
    if t is SymInt or t is SymBool:
        return SymFloat(V._exact_result(V.zr(x)))
    if t is SymFloat:
        return x
    if t is SymStr:
        if len(x.items) == 1 and isinstance(x.items[0], FloatAtom):
            return x.items[0].v
        if len(x.items) == 1 and isinstance(x.items[0], NumAtom):
            return _float(x.items[0].v)
        return parse_float(x)
    raise Unsupported("float(%s)" % t)


def parse_float(x):
    """decimal text [-]d*[.d*] -> exact real (no exponent)"""
    x._noatoms('float')
    c = cur()
    items = list(x.items)
    neg = False
    if items and V._fork(V.in_ranges(items[0], [(43, 43), (45, 45)])):
        neg = V._fork(V._zbool(V.item_eq(items[0], 45)))
        items = items[1:]
    num, den, seen, digits = z3.IntVal(0), 1, False, 0
    for d in items:
        z = V._zc(d)
        if c.branch(z3.And(z >= 48, z <= 57)):
            num = num * 10 + (z - 48)
            digits += 1
            if seen:
                den *= 10
        elif not seen and c.branch(z == 46):
            seen = True
        elif c.branch(z3.Or(z >= 128, z == 95, z <= 32)):
            raise Unsupported("float syntax")
        elif digits and c.branch(z3.Or(z == 101, z == 69)):
            raise Unsupported("float syntax")
        elif not digits and not seen:
            for w in ('nan', 'inf', 'infinity'):
                if len(w) == len(items) and c.branch(z3.And(*[z3.Or(V._zc(i) == ord(a), V._zc(i) == ord(a.upper())) for i, a in zip(items, w)])):
                    return float('-' + w if neg else w)
            raise ValueError("could not convert string to float")
        else:
            raise ValueError("could not convert string to float")
    if not digits:
        raise ValueError("could not convert string to float")
    r = z3.ToReal(num) / z3.RealVal(den)
    return SymFloat(z3.simplify(V._exact_result(-r if neg else r)))


@handler(bool)
def _bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    return bool(x)


@handler(abs)
def _abs(x):
    return abs(x)


@handler(ord)
def _ord(x):
    if type(x) in (SymStr, SymBytes):
        if len(x.items) != 1:
            raise TypeError("ord() expected a character")
        if isinstance(x.items[0], V.Atom):
            raise Unsupported("ord of opaque text")
        return mkint(x.items[0])
    return ord(x)


@handler(chr)
def _chr(x):
    if type(x) is SymInt:
        return SymStr.make([x.e])
    return chr(x)


@handler(min)
def _min(*a, key=None, default=_MISS):
    return _minmax(a, key, default, lambda x, y: x < y)


@handler(max)
def _max(*a, key=None, default=_MISS):
    return _minmax(a, key, default, lambda x, y: x > y)


def _minmax(a, key, default, better):
    seq = list(a[0]) if len(a) == 1 else list(a)
    if not seq:
        if default is not _MISS:
            return default
        raise ValueError("arg is an empty sequence")
    if key is None and all(V.is_intlike(x) for x in seq):
        e = zi(seq[0])
        for x in seq[1:]:
            y = zi(x)
            e = z3.If(better(y, e), y, e)
        return mkint(e)
    best = seq[0]
    bk = call(key, best) if key else best
    for x in seq[1:]:
        xk = call(key, x) if key else x
        if better(xk, bk):
            best, bk = x, xk
    return best


@handler(sum)
def _sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


@handler(sorted, always=True)
def _sorted(xs, key=None, reverse=False):
    xs = list(xs)
    ks = [call(key, x) for x in xs] if key is not None else list(xs)
    if not deep_sym(ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return [xs[i] for i in order]
    # stable insertion sort with forking comparisons
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0:
            p = idx[j - 1]
            less = (ks[p] < ks[i]) if reverse else (ks[i] < ks[p])
            if less:
                j -= 1
            else:
                break
        idx.insert(j, i)
    return [xs[i] for i in idx]


@handler(map, always=True)
def _map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


@handler(filter, always=True)
def _filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


@handler(functools.reduce, always=True)
def _reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


@handler(any, always=True)
def _any(it):
    for x in it:
        if x:
            return True
    return False


@handler(all, always=True)
def _all(it):
    for x in it:
        if not x:
            return False
    return True


@handler(divmod)
def _divmod(a, b):
    return a // b, a % b


@handler(pow)
def _pow(a, b, m=None):
    if m is None:
        return a ** b
    raise Unsupported("modular pow on symbolic values")


@handler(round)
def _round(x, n=None):
    return x.__round__(n)


@handler(bin)
def _bin(x):
    e = z3.simplify(zi(x))
    c = cur()
    reg = c.data.get('bytebits', {})
    base = z3.simplify(e - 256)
    bits = reg.get(base.get_id()) if z3.is_const(base) else None
    if bits is not None:        # 0x100 + registered byte
        return SymStr([48, 98, 49] + [V.BitAtom(SymInt(b)) for b in bits])
    neg = c.branch(e < 0)
    a = z3.simplify(-e) if neg else e
    k = 1
    while not c.branch(a < 2 ** k):
        k += 1
        if k > 128:
            raise Unsupported("bin() of a wide value")
    digs = [V.BitAtom(mkint((a / z3.IntVal(2 ** i)) % 2)) for i in range(k - 1, -1, -1)]
    if k > 1:
        digs[0] = 49
    return SymStr.make(([45] if neg else []) + [48, 98] + [d if isinstance(d, int) else
                       (48 + d.v if isinstance(d.v, int) else d) for d in digs])


@handler(hex)
def _hex(x):
    return hex(cur().concretize(zi(x), 600))


@handler(hash)
def _hash(x):
    raise Unsupported("hash()")


@handler(bytes)
def _bytes(x=b'', *a):
    if type(x) is SymBytes:
        return x
    if type(x) is SymStr:
        return x.encode(*a)
    if isinstance(x, (list, tuple)):
        for i in x:
            if not (i >= 0 and i < 256):
                raise ValueError("bytes must be in range(0, 256)")
        return SymBytes.make(list(x))
    if type(x) is SymInt:
        return bytes(cur().concretize(x.e))
    raise Unsupported("bytes()")


@handler(bytearray)
def _bytearray(x=b'', *a):
    # read-only use only
    return _bytes(x, *a)


@handler(list)
def _list(x=()):
    return list(x)


@handler(tuple)
def _tuple(x=()):
    return tuple(x)


@handler(set)
def _set(x=()):
    x = list(x)
    if not any(deep_sym(i) for i in x):
        return set(x)
    out = []
    for i in x:
        if not any(bool(i == y) for y in out):
            out.append(i)
    return SymSet(out)


class SymSet:
    """Small set of possibly symbolic members (pairwise distinct under the path condition)."""
    __hash__ = None

    def __eq__(self, o):
        if type(o) not in (SymSet, set, frozenset):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __init__(self, xs):
        self.xs = list(xs)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.xs)

    def __and__(self, o):
        o = list(o)
        return SymSet([x for x in self.xs if any(bool(x == y) for y in o)])
    __rand__ = __and__
    intersection = __and__

    def __or__(self, o):
        r = SymSet(self.xs)
        for x in o:
            r.add(x)
        return r
    __ror__ = __or__
    union = __or__

    def __sub__(self, o):
        o = list(o)
        return SymSet([x for x in self.xs if not any(bool(x == y) for y in o)])

    def __rsub__(self, o):
        return SymSet([x for x in o if x not in self])

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def discard(self, x):
        for i, y in enumerate(self.xs):
            if x == y:
                del self.xs[i]
                return

    def remove(self, x):
        n = len(self.xs)
        self.discard(x)
        if len(self.xs) == n:
            raise KeyError(x)


@handler(dict, always=True)
def _dict(*a, **k):
    d = {}
    for src in a:
        if isinstance(src, dict):
            pairs = list(src.items())
        elif hasattr(src, 'keys'):
            pairs = [(kk, src[kk]) for kk in src.keys()]
        else:
            pairs = src
        for kk, vv in pairs:
            sx_set(vv, d, kk.v if type(kk) is SymKey else kk)
    d.update(k)
    return d


@handler(getattr)
def _getattr(o, n, *d):
    if type(n) is SymStr:
        raise Unsupported("getattr with symbolic name")
    return getattr(o, n, *d)


@handler(issubclass)
def _issubclass(a, b):
    return issubclass(a, b)


@handler(math.floor)
def _floor(x):
    return x.__floor__()


@handler(math.ceil)
def _ceil(x):
    return x.__ceil__()


@handler(math.isnan)
def _isnan(x):
    return False


@handler(operator.add)
def _op_add(a, b):
    return a + b


@handler(operator.eq)
def _op_eq(a, b):
    return a == b


@handler(operator.mul)
def _op_mul(a, b):
    return a * b


@handler(eval, always=True)
def _eval(src, g=None, l=None):
    if type(src) is SymStr:
        if len(src.items) == 1 and isinstance(src.items[0], (NumAtom, FloatAtom)):
            return src.items[0].v
        h = getattr(cur(), 'eval_hook', None)
        if h:
            return h(src)
        raise Unsupported("eval of symbolic text")
    if type(src) in SYMSET:
        raise TypeError("eval() arg 1 must be a string, bytes or code object")
    f = sys._getframe(2)
    return eval(src, g if g is not None else f.f_globals, l if l is not None else (g if g is not None else f.f_locals))


@handler(ast.literal_eval)
def _literal_eval(src):
    from . import pylit
    return pylit.literal_eval(src)


@handler(id)
def _id(x):
    return id(x)


def _re_fn(name):
    def h(pattern, *a, **k):
        from . import regex
        if type(pattern) in SYMSET:
            raise Unsupported("symbolic regular expression")
        flags = k.pop('flags', 0)
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(a) > 1:
            flags, a = a[1], a[:1]
        p = pattern if isinstance(pattern, _PATTERN) else re.compile(pattern, flags)
        return regex.pattern_method(p, name, a, k)
    return h


for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub', 'subn'):
    _HANDLERS[id(getattr(re, _n))] = (getattr(re, _n), _re_fn(_n), False)


@handler(re.escape)
def _re_escape(x):
    raise Unsupported("re.escape of symbolic text")


_TYPES_CALLED = {}


def type_handler(cls):
    def deco(f):
        _TYPES_CALLED[cls] = f
        return f
    return deco


for _b in (str, int, float, bool, bytes, list, tuple, set, dict, map, filter):
    pass

HOOKS = {'sx__call': call, 'sx__in': sx_in, 'sx__notin': sx_notin, 'sx__get': sx_get, 'sx__set': sx_set,
         'sx__fstr': sx_fstr, 'sx__mod': sx_mod, 'sx__dict': sx_dict, 'sx__dictcomp': sx_dictcomp, 'sx__class': sx_class}


# ---------------------------------------------------------------- importer

ENCODED_FILES = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path, instrument):
        self.path, self.instrument = path, instrument

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fh:
            src = fh.read()
        tree = ast.parse(src, self.path)
        if self.instrument:
            import hashlib
            ENCODED_FILES[self.path] = hashlib.sha256(src).hexdigest()
            tree = Rewriter().visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__.update(HOOKS)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)

    def get_source(self, name):
        return open(self.path).read()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, symbolic, skip):
        self.repo, self.symbolic, self.skip = repo, symbolic, skip

    def find_spec(self, name, path=None, target=None):
        rel = name.replace('.', '/')
        base = os.path.join(self.repo, rel)
        for cand, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(cand):
                inst = self.symbolic and not any(name == s or name.startswith(s + '.') for s in self.skip)
                spec = importlib.util.spec_from_file_location(
                    name, cand, loader=Loader(cand, inst),
                    submodule_search_locations=[base] if pkg else None)
                return spec
        if os.path.isdir(base) and any(f.endswith('.py') or os.path.isdir(os.path.join(base, f))
                                       for f in os.listdir(base)):
            if name.split('.')[0] in _TOP:
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
        return None


_TOP = {'scheduler', 'dbutils', 'sql_parsing', 'parsing', 'parsing_future', 'dots', 'imports', 'controller',
        'euler_db', 'eulerdb_c', 'sql_research', 'data', 'demo'}

DEFAULT_SKIP = ('parsing', 'parsing_future', 'imports', 'eulerdb_c')


def install(symbolic, skip=DEFAULT_SKIP, repo=None):
    sys.dont_write_bytecode = True
    f = Finder(repo or REPO, symbolic, tuple(skip))
    sys.meta_path.insert(0, f)
    return f


# ---- record of the functions executed symbolically
EXECUTED = set()


def start_tracing(repo=None):
    repo = (repo or REPO).rstrip('/') + '/'
    mon = sys.monitoring
    mon.use_tool_id(3, 'symex')

    def on_start(code, off):
        if code.co_filename.startswith(repo) and code.co_name != '<module>':
            EXECUTED.add("%s:%s" % (code.co_filename[len(repo):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
