"""C07: additively homomorphic encryption: sums and averages computed on ciphertexts are those of the plaintexts."""
from fractions import Fraction

from runner import Scenario
from symex import sx_and, sx_or
import crypto_common as cc
import cryptostub
from crypto_common import setup  # noqa

MUST_COVER = ('single', 'sum', 'avg', 'product')
ASSUMPTIONS = ['Paillier (phe) contract: ciphertexts are integers in [1, n^2); products modulo n^2 decrypt to the sum modulo n, values above n/2 are negative',
               'a ciphertext under one key combined with a number that is not a ciphertext decrypts to something unrelated']
KEYS = {'example': [787659527, 1023624989], 'swapped': [1023624989, 787659527], 'small': [1000003, 999983]}


def cipher(ctx, key):
    cryptostub.start(ctx)
    return cc.encrypt.HomomorphicCipher(KEYS[key])


def num(ctx, name, lim):
    v = ctx.int(name, -lim, lim)
    ctx.note(name, v)
    return v


def text(ctx, v):
    if ctx.symbolic:
        from symex.instrument import to_text
        return to_text(v)
    return str(v)


def join(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + ',' + p
    return out


def single(ctx, key, lim):
    c = cipher(ctx, key)
    x = num(ctx, 'x', lim)
    e = c.encrypt(x)
    ctx.check(is_text(e), 'ciphertext is not text')
    r = c.decrypt(e)
    ctx.check(r == x, 'decryption differs from the number')
    ctx.check(c.decrypt(as_int(e)) == x, 'decryption of the numeric ciphertext differs from the number')
    ctx.check(c.decrypt(c.encrypt(text(ctx, x))) == x, 'decryption of the encrypted decimal text differs from the number')
    other = cc.encrypt.HomomorphicCipher(KEYS[key])
    ctx.check(other.decrypt(e) == x, 'another instance with the same key decrypts differently')
    ctx.cover('single')


def is_text(r):
    from symex.values import SymStr
    return isinstance(r, (str, SymStr))


def as_int(t):
    if isinstance(t, str):
        return int(t)
    from symex.instrument import call
    return call(int, t)


def total(ctx, key, n, lim, kind):
    c = cipher(ctx, key)
    xs = [num(ctx, 'x%d' % i, lim) for i in range(n)]
    es = [c.encrypt(x) for x in xs]
    s = 0
    for x in xs:
        s = s + x
    if kind == 'SUM':
        ctx.check(c.decrypt(join(es + ['SUM'])) == s, 'SUM of ciphertexts is not the sum of the numbers')
        ctx.cover('sum')
    elif kind == 'AVG':
        r = c.decrypt(join(es + ['AVG']))
        ctx.check(near(r, s, n, 0), 'AVG of ciphertexts is not the average of the numbers')
        ctx.cover('avg')
    else:
        n2 = (KEYS[key][0] * KEYS[key][1]) ** 2
        p = 1
        for e in es:
            p = (p * as_int(e)) % n2
        ctx.check(c.decrypt(text(ctx, p)) == s, 'product of ciphertexts does not decrypt to the sum of the numbers')
        r = c.decrypt(join([text(ctx, p), str(n)]))
        ctx.check(near(r, s, n, 1), 'product with a count does not decrypt to the average of the numbers rounded to four places')
        ctx.cover('product')


def near(r, s, n, eps):
    """|r - s/n| <= eps / 2 / 10^4, up to the precision of a double"""
    if isinstance(r, float):
        r = Fraction(r)
    d = r * n - s
    d = d * (10 ** 4 * 2 ** 50)
    lim = eps * n * 2 ** 49 + abs(s) * 10 ** 4
    return sx_and(d <= lim, d >= -lim)


def limits(ctx, key):
    """numbers too large for the key are refused, sums that overflow are refused or right"""
    c = cipher(ctx, key)
    n = KEYS[key][0] * KEYS[key][1]
    x = ctx.int('x', -2 * n, 2 * n)
    ctx.note('x', x)
    try:
        e = c.encrypt(x)
    except ValueError:
        ctx.check(sx_or(x > n // 3 - 1, x < -(n // 3 - 1)), 'number refused although it fits the key')
        ctx.done()
    ctx.check(c.decrypt(e) == x, 'decryption differs from the number')


def scenarios(tier):
    big = tier != 'quick'
    out = []
    for k in KEYS:
        lim = KEYS[k][0] * KEYS[k][1] // 3 - 2
        out.append(Scenario('single ' + k, single, dict(key=k, lim=lim), 'every number the key can hold'))
        out.append(Scenario('limits ' + k, limits, dict(key=k), 'every number up to twice the modulus'))
        for n in range(1, 9 if big else 5):
            for kind in ('SUM', 'AVG', 'product'):
                out.append(Scenario('%s of %d %s' % (kind, n, k), total, dict(key=k, n=n, lim=lim // n, kind=kind), '%d numbers, every value whose sum fits the key' % n))
    return out
