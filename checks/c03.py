"""C03: the deterministic AES column cipher is a bijection usable for equality lookups."""
import cryptostub
from symex import sx_and, sx_not, iff, implies
from runner import Scenario
import crypto_common as cc
from crypto_common import setup  # noqa

ASSUMPTIONS = ['AES is a permutation of 16-byte blocks per key and otherwise free (no accidental equalities)',
               'SHA-256 has no collisions', 'base64 is computed as a reversible text of the bytes']
MUST_COVER = ('equal', 'different')


def text(ctx, name, n, uni):
    if n == 0:
        return ''
    t = ctx.str(name, n, [(0, 0x7f)] if not uni else None)
    ctx.assume(t[-1] != '\0')
    return t


def pair(ctx, n1, n2, uni):
    cryptostub.start(ctx)
    C = cc.encrypt.AESCipher
    key = 'k1'
    a, b = text(ctx, 'a', n1, uni), text(ctx, 'b', n2, uni)
    ctx.note('a', a)
    ctx.note('b', b)
    # two sessions: separate cipher objects
    ea, eb = C(key).encrypt(a), C(key).encrypt(b)
    same = bool(a == b)
    ctx.check(iff(ea == eb, same), 'ciphertext equality differs from plaintext equality')
    ctx.check(C(key).decrypt(ea) == a, 'decrypt(encrypt(text)) is not the text')
    ctx.check(C(key).decrypt(eb) == b, 'decrypt(encrypt(text)) is not the text')
    ctx.cover('equal' if same else 'different')
    if n1 > 0:
        ctx.check(sx_not(ea == a), 'ciphertext is the plaintext')


def again(ctx, n):
    """one cipher object used repeatedly gives the same answers as fresh ones"""
    cryptostub.start(ctx)
    C = cc.encrypt.AESCipher
    a, b = text(ctx, 'a', n, False), text(ctx, 'b', n, False)
    c = C('k1')
    e1 = c.encrypt(a)
    e2 = c.encrypt(b)
    e3 = c.encrypt(a)
    ctx.check(e1 == e3, 'a second encryption of the same text differs')
    ctx.check(e2 == C('k1').encrypt(b), 'ciphertext depends on what was encrypted before')
    ctx.check(c.decrypt(e2) == b, 'decrypt(encrypt(text)) is not the text')
    ctx.check(c.decrypt(e1) == a, 'decrypt(encrypt(text)) is not the text')


def keys(ctx, n, m, k):
    """different keys never produce a common ciphertext (the key really is used)"""
    cryptostub.start(ctx)
    C = cc.encrypt.AESCipher
    k1 = ctx.str('k1', k, [(0x20, 0x7e)])
    k2 = ctx.str('k2', m, [(0x20, 0x7e)])
    t = text(ctx, 't', n, False)
    ctx.note('k1', k1)
    ctx.note('k2', k2)
    e1, e2 = C(k1).encrypt(t), C(k2).encrypt(t)
    ctx.check(iff(e1 == e2, k1 == k2), 'key does not determine the ciphertext')
    ctx.check(C(k1).decrypt(e1) == t, 'decrypt(encrypt(text)) is not the text')


def scenarios(tier):
    out = []
    short = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2)] + ([(2, 3), (3, 3)] if tier == 'thorough' else [])
    for a, b in short:
        out.append(Scenario('unicode-%d-%d' % (a, b), pair, dict(n1=a, n2=b, uni=True),
                            'every pair of Unicode texts of %d and %d characters not ending in NUL' % (a, b), weight=3 ** b))
    longs = [(15, 16), (16, 16), (15, 15), (16, 17), (17, 17), (32, 32), (31, 33), (1, 16), (17, 33)]
    if tier == 'thorough':
        longs += [(a, b) for a in (3, 5, 8, 14, 18, 24, 47, 48, 49, 64, 65, 100) for b in (a, a + 1)]
    for a, b in longs:
        out.append(Scenario('ascii-%d-%d' % (a, b), pair, dict(n1=a, n2=b, uni=False),
                            'every pair of 7-bit texts of %d and %d characters not ending in NUL' % (a, b)))
    for n in (1, 16, 17):
        out.append(Scenario('reuse-%d' % n, again, dict(n=n), 'two 7-bit texts of %d characters on one cipher object' % n))
    for k, m in ((1, 1), (1, 2), (33, 33)):
        out.append(Scenario('keys-%d-%d' % (k, m), keys, dict(n=3, m=m, k=k), 'any two keys of %d/%d characters' % (k, m)))
    return out
