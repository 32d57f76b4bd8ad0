"""C04: the other reversible ciphers (SM4, AES over bytes, AES-CBC, Fernet) invert."""
import cryptostub
from symex import sx_and, sx_not, iff, implies
from runner import Scenario
import crypto_common as cc
from crypto_common import setup  # noqa

ASSUMPTIONS = ['AES/SM4 are permutations of 16-byte blocks per key, free otherwise', 'SHA-256 has no collisions',
               'gmssl pads and unpads with PKCS#7 in ECB mode; Fernet inverts under its own key (library contracts)']


def txt(ctx, name, n, uni):
    return ctx.str(name, n, None if uni else [(0, 0x7f)])


def sm4(ctx, n, m, uni):
    cryptostub.start(ctx)
    C = cc.encrypt.SM4CipherBytes
    a, b = txt(ctx, 'a', n, uni), txt(ctx, 'b', m, uni)
    ctx.note('a', a)
    ctx.note('b', b)
    c = C('key-one')
    ea = c.encrypt(a)
    eb = C('key-one').encrypt(b)
    ctx.check(iff(ea == eb, a == b), 'SM4 ciphertext equality differs from plaintext equality')
    ctx.check(c.decrypt(ea) == a, 'SM4 decrypt(encrypt(text)) is not the text')
    ctx.check(c.decrypt(eb) == b, 'SM4 decrypt(encrypt(text)) is not the text')
    ctx.check(C('key-one').encrypt(a.encode('utf8')) == ea, 'SM4 text and its UTF-8 bytes encrypt differently')


def sm4_int(ctx):
    cryptostub.start(ctx)
    C = cc.encrypt.SM4CipherBytes
    x = ctx.int('x', -12, 12)
    if ctx.symbolic:
        x = ctx.concretize(x.e)
    d = C('k').decrypt(C('k').encrypt(x))
    ctx.check(d == str(x), 'SM4 of a number does not decrypt to its decimal text')


def aesbytes(ctx, n):
    cryptostub.start(ctx)
    if ctx.symbolic:
        ctx.data['b64exact'] = True
    C = cc.encrypt.AESCipherBytes
    a = ctx.bytes('a', n)
    b = ctx.bytes('b', n)
    ctx.note('a', a)
    ea = C(b'key').encrypt(a)
    eb = C(b'key').encrypt(b)
    ctx.check(C(b'key').decrypt(ea) == a, 'AES-bytes decrypt(encrypt(data)) is not the data')
    ctx.check(implies(a == b, ea == eb), 'AES-bytes is not deterministic')


def cbc(ctx, n, m, uni):
    cryptostub.start(ctx)
    C = cc.encrypt.AESCrypto
    a, b = txt(ctx, 'a', n, uni), txt(ctx, 'b', m, uni)
    ctx.note('a', a)
    ea, eb = C.encrypt(a), C.encrypt(b)
    ctx.check(C.decrypt(ea) == a, 'AES-CBC decrypt(encrypt(text)) is not the text')
    ctx.check(C.decrypt(eb) == b, 'AES-CBC decrypt(encrypt(text)) is not the text')
    ctx.check(iff(ea == eb, a == b), 'AES-CBC ciphertext equality differs from plaintext equality')


def fernet(ctx, n, uni):
    cryptostub.start(ctx)
    C = cc.encrypt.FernetCipher
    a = txt(ctx, 'a', n, uni)
    ctx.check(C().decrypt(C().encrypt(a)) == a, 'Fernet decrypt(encrypt(text)) is not the text')


def keysep(ctx, which, k, m):
    cryptostub.start(ctx)
    k1, k2 = ctx.str('k1', k, [(0x20, 0x7e)]), ctx.str('k2', m, [(0x20, 0x7e)])
    t = ctx.str('t', 3, [(0, 0x7f)])
    if which == 'sm4':
        e1, e2 = cc.encrypt.SM4CipherBytes(k1).encrypt(t), cc.encrypt.SM4CipherBytes(k2).encrypt(t)
    else:
        if ctx.symbolic:
            ctx.data['b64exact'] = True
        t = t.encode('utf8')
        e1, e2 = cc.encrypt.AESCipherBytes(k1.encode()).encrypt(t), cc.encrypt.AESCipherBytes(k2.encode()).encrypt(t)
    ctx.check(iff(e1 == e2, k1 == k2), 'key does not determine the ciphertext')


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    for n, m in [(0, 1), (1, 1), (2, 2)] + ([(3, 3), (2, 3)] if th else []):
        out.append(Scenario('sm4-u-%d-%d' % (n, m), sm4, dict(n=n, m=m, uni=True), 'Unicode texts of %d and %d characters' % (n, m), weight=3 ** m))
        out.append(Scenario('cbc-u-%d-%d' % (n, m), cbc, dict(n=n, m=m, uni=True), 'Unicode texts of %d and %d characters' % (n, m), weight=3 ** m))
    for n, m in [(15, 16), (16, 16), (17, 17), (16, 32), (31, 32), (33, 33)] + ([(a, a + d) for a in (8, 15, 47, 48, 64, 100) for d in (0, 1)] if th else []):
        out.append(Scenario('sm4-a-%d-%d' % (n, m), sm4, dict(n=n, m=m, uni=False), '7-bit texts of %d and %d characters' % (n, m)))
        out.append(Scenario('cbc-a-%d-%d' % (n, m), cbc, dict(n=n, m=m, uni=False), '7-bit texts of %d and %d characters' % (n, m)))
    out.append(Scenario('sm4-int', sm4_int, {}, 'integers -12..12'))
    for n in [0, 1, 2, 3, 11, 12, 13, 24] + ([4, 5, 9, 10, 23, 25, 36, 48] if th else []):
        out.append(Scenario('aesbytes-%d' % n, aesbytes, dict(n=n), 'every byte string of length %d' % n))
    for n in (0, 1, 2):
        out.append(Scenario('fernet-%d' % n, fernet, dict(n=n, uni=True), 'Unicode texts of %d characters' % n))
    for w in ('sm4', 'aesbytes'):
        for k, m in ((1, 1), (1, 2), (17, 17)):
            out.append(Scenario('key-%s-%d-%d' % (w, k, m), keysep, dict(which=w, k=k, m=m), 'any keys of %d and %d characters' % (k, m)))
    return out
