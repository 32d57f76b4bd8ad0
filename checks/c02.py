"""C02: order-preserving decryption inverts encryption and never invents a plaintext."""
import symex
import cryptostub
from symex import sx_and, sx_or, sx_not, implies, iff, Infeasible
from runner import Scenario
import ope_common as oc
from ope_common import setup  # noqa
import c01

ASSUMPTIONS = c01.ASSUMPTIONS[:2]


def roundtrip(ctx, M, N):
    a, b, mk = oc.small(ctx, M, N, -4, 4)
    x = ctx.int('x')
    ctx.assume(sx_and(x >= a, x <= a + M - 1))
    ctx.note('x', x)
    c = mk().encrypt(x)
    ctx.note('c', c)
    y = mk().decrypt(c)
    ctx.note('y', y)
    ctx.check(y == x, 'decryption does not return the encrypted value')
    ctx.observe('c', c)
    ctx.cover('roundtrip')


def arbitrary(ctx, M, N):
    """any integer presented as a ciphertext: either rejected or the ciphertext of the returned value"""
    a, b, mk = oc.small(ctx, M, N, -4, 4)
    c = ctx.int('c', -20, 20)
    ctx.note('c', c)
    try:
        y = mk().decrypt(c)
    except Exception:
        ctx.cover('rejected')
        return
    ctx.note('y', y)
    ctx.check(sx_and(y >= a, y <= a + M - 1), 'decryption returned a value outside the input range')
    ctx.check(mk().encrypt(y) == c, 'decryption accepted a number that is not the ciphertext of its answer')
    ctx.cover('accepted')


def rejects(ctx, M, N):
    """a number that is not the ciphertext of any domain value is rejected"""
    a, b, mk = oc.small(ctx, M, N, 0, 1)
    c = ctx.int('c')
    ctx.assume(sx_and(c >= b, c <= b + N - 1))
    for k in range(M):
        ctx.assume(sx_not(mk().encrypt(a + k) == c))
    ctx.note('c', c)
    try:
        y = mk().decrypt(c)
    except Exception:
        ctx.cover('nonciphertext-rejected')
        return
    ctx.note('y', y)
    ctx.fail('a number that is no ciphertext was decrypted')


def wide(ctx, base):
    cryptostub.start(ctx, keystream=True)
    oc.stub_rhyper(ctx)
    x = ctx.int('x', base, base + 5)
    ctx.note('x', x)
    C = oc.encrypt.OPECipher
    c = C('secret-key').encrypt(x)
    ctx.check(C('secret-key').decrypt(c) == x, 'decryption does not return the encrypted value')
    # ciphertexts come back from the database as numbers or as decimal text
    ctx.check(C('secret-key').decrypt(c01.as_text(ctx, c)) == x, 'decryption of the decimal text differs')
    ctx.cover('wide')


MUST_COVER = ('roundtrip', 'rejected', 'accepted', 'nonciphertext-rejected', 'wide')


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for M, N in [(1, 1), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (3, 5)] + ([(4, 6), (4, 8), (3, 8), (5, 7)] if t else []):
        out.append(Scenario('roundtrip-%d-%d' % (M, N), roundtrip, dict(M=M, N=N),
                            'domain %d, range %d, offsets in [-4,4], every value and tape' % (M, N), weight=M * N, max_paths=8000))
        out.append(Scenario('arbitrary-%d-%d' % (M, N), arbitrary, dict(M=M, N=N),
                            'domain %d, range %d, every integer in [-20,20] as ciphertext' % (M, N), weight=M * N, max_paths=8000))
    for M, N in [(1, 3), (2, 3), (2, 4)] + ([(3, 5)] if t else []):
        out.append(Scenario('rejects-%d-%d' % (M, N), rejects, dict(M=M, N=N),
                            'domain %d, range %d' % (M, N), weight=M * N, max_paths=8000))
    for base in [0, -3, 2 ** 31 - 2, -2 ** 63, 2 ** 63 - 6] + ([10 ** 12, -10 ** 15, 2 ** 53 - 2, -2 ** 53 - 1] if t else []):
        out.append(Scenario('wide-%d' % base, wide, dict(base=base), 'production cipher, x in [%d,%d]' % (base, base + 5), weight=20))
    return out
