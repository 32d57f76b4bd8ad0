"""C06: the numeric encoding of encrypted columns is exact and monotone."""
import z3
import symex
import eu
from fractions import Fraction
from symex import sx_and, sx_or, sx_not, implies, iff
from symex.values import SymFloat, SymInt, zr
from runner import Scenario

ASSUMPTIONS = [
    'a float is the double nearest to a decimal of at most 15 significant digits and prints as that decimal (Python repr)',
    'in the scenarios marked IEEE every float operation is rounded to nearest-even exactly; in the others floats are exact reals',
]
MUST_COVER = ('exact', 'order', 'text')


def setup(symbolic):
    eu.install(False) if not symbolic else eu.install(True)


def ieee(ctx):
    """round to nearest double, exactly: fork on the binade, then an integer significand"""
    memo = []

    def rm(e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return z3.RealVal(str(Fraction(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))))
        for e0, r in memo:
            if e0.eq(e):
                return r
        c = symex.active()
        if c.branch(e == 0):
            r = z3.RealVal(0)
        else:
            neg = c.branch(e < 0)
            a = z3.simplify(-e) if neg else e
            k = None
            for _ in range(80):
                m = c.model()
                q = m.eval(a, model_completion=True).as_fraction()
                k = c.ex.picks.get(('ieee', tuple(c.decisions)))
                if k is None:
                    k = 0
                    while Fraction(2) ** (k + 1) <= q:
                        k += 1
                    while Fraction(2) ** k > q:
                        k -= 1
                    c.ex.picks[('ieee', tuple(c.decisions))] = k
                lo, hi = Fraction(2) ** k, Fraction(2) ** (k + 1)
                if c.branch(z3.And(a >= z3.RealVal(str(lo)), a < z3.RealVal(str(hi)))):
                    break
            else:
                raise symex.Unsupported('too many binades')
            ulp = Fraction(2) ** (k - 52)
            n = z3.Int('fl%d' % len(memo))
            diff = a / z3.RealVal(str(ulp)) - z3.ToReal(n)
            c.add(z3.And(2 * diff <= 1, 2 * diff >= -1, n >= 2 ** 52, n <= 2 ** 53,
                         z3.Implies(z3.Or(2 * diff == 1, 2 * diff == -1), n % 2 == 0)))
            r = z3.ToReal(n) * z3.RealVal(str(ulp))
            r = -r if neg else r
        memo.append((e, r))
        return r
    return rm


def decimal(ctx, name, d, lo, hi, rounded=True):
    """a float with d decimals: name/10^d"""
    k = ctx.int(name, lo, hi)
    ctx.note(name + '*10^%d' % d, k)
    if not ctx.symbolic:
        return k / 10 ** d
    e = z3.simplify(zr(k) / 10 ** d) if isinstance(k, SymInt) else z3.RealVal(str(Fraction(k, 10 ** d)))
    if rounded and getattr(ctx, 'round_model', None):
        return SymFloat(ctx.round_model(e), dec=e)
    return SymFloat(e)


def text(ctx, v):
    if ctx.symbolic:
        from symex.instrument import to_text
        return to_text(v)
    return str(v)


def exact(ctx, typ, d, lo, hi):
    """IEEE: what is stored decodes to the very same double"""
    if ctx.symbolic:
        ctx.round_model = ieee(ctx)
    x = decimal(ctx, 'k', d, lo, hi)
    enc = eu.G.enc
    v = enc.encode(x, typ)
    ctx.check(isinstance_int(v), 'encoded number is not an integer')
    ctx.check(enc.decode(text(ctx, v), typ) == x, 'stored number changes when read back')
    ctx.check(enc.decode(v, typ) == x, 'stored number changes when read back from its ordering ciphertext')
    ctx.cover('exact')


def isinstance_int(v):
    return isinstance(v, (int, SymInt)) and not isinstance(v, bool)


def wide(ctx, typ, lim):
    """exact reals over the whole accepted range: round trip, order and equality"""
    enc = eu.G.enc
    x = decimal(ctx, 'x', 6, -lim * 10 ** 6, lim * 10 ** 6)
    y = decimal(ctx, 'y', 6, -lim * 10 ** 6, lim * 10 ** 6)
    vx, vy = enc.encode(x, typ), enc.encode(y, typ)
    ctx.check(enc.decode(text(ctx, vx), typ) == x, 'stored number changes when read back')
    ctx.check(iff(x < y, vx < vy), 'order of numbers is not the order of their encodings')
    ctx.check(iff(x == y, vx == vy), 'equal numbers and equal encodings differ')
    ctx.check(sx_and(vx >= -2 ** 63, vx < 2 ** 63), 'encoding outside the range of the order-preserving cipher')
    ctx.cover('order')


def integers(ctx, typ):
    enc = eu.G.enc
    x = ctx.int('x', -2 ** 63, 2 ** 63 - 1)
    ctx.note('x', x)
    v = enc.encode(x, typ)
    ctx.check(enc.decode(text(ctx, v), typ) == x, 'stored integer changes when read back')
    ctx.check(enc.decode(v, typ) == x, 'stored integer changes when read back from its ordering ciphertext')
    if typ == 'int':
        ctx.check(v == x, 'an integer is not its own encoding')


def small_int(ctx, typ):
    """integers written into a floating-point column, and booleans"""
    enc = eu.G.enc
    x = ctx.int('x', -9 * 10 ** 6, 9 * 10 ** 6)
    ctx.note('x', x)
    v = enc.encode(x, typ)
    ctx.check(enc.decode(text(ctx, v), typ) == x, 'stored integer changes when read back from a floating-point column')
    b = ctx.flag('b')
    ctx.check(enc.encode(b, typ) == enc.encode(int(b), typ), 'boolean and its number encode differently')


def texts(ctx, typ, n, kind):
    """text columns keep text as it is, also when it looks like a number"""
    enc = eu.G.enc
    s = ctx.str('s', n, [(0x30, 0x39), (0x2d, 0x2e)] if kind == 'digits' else [(0x20, 0x7e)])
    ctx.note('s', s)
    v = enc.encode(s, typ)
    ctx.check(v == s, 'text is not its own encoding')
    r = enc.decode(v, typ)
    ctx.check(is_text(r) and r == s, 'stored text changes when read back')
    ctx.cover('text')


def is_text(r):
    from symex.values import SymStr
    return isinstance(r, (str, SymStr))


def numeric_text(ctx, typ):
    """the decimal text of a number stored in a numeric column is that number"""
    enc = eu.G.enc
    x = ctx.int('x', -9 * 10 ** 6, 9 * 10 ** 6)
    t = text(ctx, x)
    ctx.check(text(ctx, enc.encode(t, typ)) == text(ctx, enc.encode(x, typ)), 'number and its text encode differently')


def stretched(ctx, a, b):
    """stretch: strictly increasing, odd, and undone by inverse_stretch (exact reals)"""
    enc = eu.G.enc
    x = real(ctx, 'x', a, b)
    y = real(ctx, 'y', -10 ** 65, 10 ** 65)
    sx, sy = enc.stretch(x), enc.stretch(y)
    inv = enc.inverse_stretch(sx)
    # where floating-point numbers can tell: relative error 10^-3 away from the lower end of a segment
    clear = x < 10 ** 15 if a == 0 else x > 10 ** 28 if a == 10 ** 15 else x > 2 * a if a > 0 else x < -2 * 10 ** 56
    ctx.check(implies(clear, abs(inv - x) * 1000 <= abs(x)), 'inverse_stretch does not undo stretch')
    ctx.check(inv == x if ctx.symbolic else close(inv, x), 'inverse_stretch does not undo stretch')
    ctx.check(implies(x < y, sx < sy) if ctx.symbolic else not (x < y and sx > sy), 'stretch is not increasing')
    ctx.check(enc.stretch(-x) == -sx, 'stretch is not odd')


def real(ctx, name, lo, hi):
    k = ctx.int(name, lo, hi)
    ctx.note(name, k)
    if not ctx.symbolic:
        return k
    return k


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for typ in ('float', 'double'):
        for d, lo, hi in [(1, 1, 99999), (2, 10 ** 4, 10 ** 5), (4, 1, 10 ** 5), (4, 5 * 10 ** 6, 7 * 10 ** 6), (6, 10 ** 6, 2 * 10 ** 6), (3, -20000, -1)] + \
                ([(5, 10 ** 7, 10 ** 8), (8, 10 ** 8, 10 ** 9), (9, 1, 1000), (12, 1, 10 ** 4), (1, 10 ** 6, 9 * 10 ** 7), (7, -10 ** 9, -10 ** 8)] if big else []):
            out.append(Scenario('exact %s %d decimals %d..%d' % (typ, d, lo, hi), exact, dict(typ=typ, d=d, lo=lo, hi=hi),
                                'every decimal k/10^%d, %d<=k<=%d, IEEE double arithmetic' % (d, lo, hi)))
        out.append(Scenario('wide ' + typ, wide, dict(typ=typ, lim=9 * 10 ** 6), 'every pair of decimals with 6 places up to 9e6'))
        out.append(Scenario('integer in ' + typ, small_int, dict(typ=typ), 'integers up to 9e6'))
        out.append(Scenario('text number ' + typ, numeric_text, dict(typ=typ), 'integers up to 9e6 as text'))
    out.append(Scenario('int', integers, dict(typ='int'), 'every 64-bit integer'))
    out.append(Scenario('text number int', numeric_text, dict(typ='int'), 'integers up to 9e6 as text'))
    for typ in ('varchar', 'char'):
        for n in (0, 1, 2, 4) if not big else range(8):
            out.append(Scenario('%s digits %d' % (typ, n), texts, dict(typ=typ, n=n, kind='digits'), 'every text of %d digits, - and .' % n))
            out.append(Scenario('%s text %d' % (typ, n), texts, dict(typ=typ, n=n, kind='any'), 'every printable ASCII text of length %d' % n))
    for a, b in [(0, 10 ** 15), (10 ** 15, 10 ** 42), (10 ** 42, 10 ** 56), (10 ** 56, 10 ** 65), (-10 ** 65, 0)]:
        out.append(Scenario('stretch %g..%g' % (a, b), stretched, dict(a=a, b=b), 'every integer of the segment'))
    return out
