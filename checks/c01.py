"""C01: order-preserving encryption is strictly monotone, deterministic and stays in the output range."""
import symex
import cryptostub
from symex import sx_and, sx_or, sx_not, implies, iff, Infeasible
from runner import Scenario
import ope_common as oc
from ope_common import setup  # noqa

ASSUMPTIONS = [
    'HMAC-SHA256 + AES-CTR produce, per key, a deterministic arbitrary bit stream per tape seed (stubbed at the library boundary)',
    'hypergeometric sampler replaced by its contract (any value of the support, a function of arguments and tape); '
    'the contract itself is checked on the real sampler for small urns',
    'out_size/2.0 is exact below 2^53 and rounded to nearest above (relational model) in the inductive step',
]


def order_small(ctx, M, N):
    a, b, mk = oc.small(ctx, M, N, -4, 4)
    x = ctx.int('x')
    y = ctx.int('y')
    ctx.assume(sx_and(x >= a, x <= a + M - 1, y >= x, y <= a + M - 1))
    ctx.note('x', x)
    ctx.note('y', y)
    c1 = mk().encrypt(x)
    c2 = mk().encrypt(y)
    ctx.note('Ex', c1)
    ctx.note('Ey', c2)
    ctx.check(sx_and(c1 >= b, c1 <= b + N - 1), 'ciphertext outside the output range')
    ctx.check(implies(x < y, c1 < c2), 'order not preserved')
    ctx.check(implies(x == y, c1 == c2), 'not deterministic')
    ctx.observe('c1', c1)
    ctx.observe('c2', c2)
    ctx.cover('order')


def out_of_domain(ctx, M, N):
    a, b, mk = oc.small(ctx, M, N, -4, 4)
    x = ctx.int('x', -20, 20)
    ctx.assume(sx_or(x < a, x > a + M - 1))
    try:
        c = mk().encrypt(x)
    except Exception:
        ctx.cover('rejected')
        return
    ctx.note('x', x)
    ctx.note('c', c)
    ctx.fail('value outside the input range was encrypted')


def wide(ctx, base):
    """the production cipher (default 64-bit ranges): order and determinism in a window of 64-bit integers"""
    cryptostub.start(ctx, keystream=True)
    oc.stub_rhyper(ctx)
    x = ctx.int('x', base, base + 3)
    y = ctx.int('y', base, base + 3)
    ctx.assume(x <= y)
    ctx.note('x', x)
    ctx.note('y', y)
    k = encrypt_mod()
    c1 = k.OPECipher('secret-key').encrypt(x)
    c2 = k.OPECipher('secret-key').encrypt(y)
    ctx.check(iff(x < y, c1 < c2), 'order not preserved')
    ctx.check(sx_and(c1 >= -2 ** 63, c1 <= 2 ** 63 - 1, c2 >= -2 ** 63, c2 <= 2 ** 63 - 1),
              'ciphertext does not fit a signed 64-bit column')
    ctx.observe('c', c1)
    ctx.cover('wide')


def text_operand(ctx):
    """the cipher accepts the decimal text of a number and gives it the same ciphertext as the number"""
    cryptostub.start(ctx, keystream=True)
    oc.stub_rhyper(ctx)
    x = ctx.int('x', -2, 2)
    k = encrypt_mod().OPECipher('k')
    t = as_text(ctx, x)
    ctx.check(k.encrypt(x) == k.encrypt(t), 'number and its decimal text encrypt differently')


def as_text(ctx, x):
    if ctx.symbolic:
        from symex.instrument import to_text
        return to_text(x)
    return str(x)


def encrypt_mod():
    return oc.encrypt


def induct(ctx, wide_sizes):
    """one recursion step over arbitrary ranges up to 2^64; nested calls obey the induction hypothesis"""
    O = oc.ope.OPE
    real = getattr(O, 'encrypt_recursive', None)
    if real is None:
        ctx.cover('no-recursion')
        return
    cryptostub.start(ctx, keystream=True)
    oc.stub_rhyper(ctx)
    s = ctx.int('s', -2 ** 63, 2 ** 63 - 1)
    M = ctx.int('M', 1, 2 ** 64)
    r = ctx.int('r', -2 ** 63, 2 ** 63 - 1)
    N = ctx.int('N', 1, 2 ** 64)
    ctx.assume(sx_and(M <= N, s + M - 1 < 2 ** 63, r + N - 1 < 2 ** 63))
    if wide_sizes:
        ctx.assume(N > 2 ** 53)
        if ctx.symbolic:
            ctx.round_model = round_model(ctx)
    else:
        ctx.assume(N <= 2 ** 53)
    x = ctx.int('x')
    y = ctx.int('y')
    ctx.assume(sx_and(x >= s, y >= x, y <= s + M - 1))
    for n, v in (('s', s), ('M', M), ('r', r), ('N', N), ('x', x), ('y', y)):
        ctx.note(n, v)
    nested = []

    def hyp(self, p, i, o):
        ctx.check(sx_and(i.start <= i.end, p >= i.start, p <= i.end), 'recursion left the input interval')
        ctx.check(i.end - i.start <= o.end - o.start, 'recursion interval larger than its output interval')
        ctx.check(o.end - o.start + 1 < N, 'recursion makes no progress')
        for q, i2, o2, e2 in nested:
            if bool(q == p) and bool(i2.start == i.start) and bool(i2.end == i.end) and \
                    bool(o2.start == o.start) and bool(o2.end == o.end):
                return e2
        e = ctx.int('E')
        ctx.assume(sx_and(e >= o.start, e <= o.end))
        for q, i2, o2, e2 in nested:
            same = sx_and(i2.start == i.start, i2.end == i.end, o2.start == o.start, o2.end == o.end)
            ctx.assume(sx_and(implies(sx_and(same, q < p), e2 < e), implies(sx_and(same, q > p), e2 > e)))
        nested.append((p, i, o, e))
        return e
    V = oc.ope.ValueRange

    def step(p):
        c = O(b'k' * 32)
        c.encrypt_recursive = lambda *a: hyp(c, *a)
        return real(c, p, V(s, s + (M - 1)), V(r, r + (N - 1)))
    # equal sizes at the leaves: sample_uniform over a big interval is covered by its own scenario
    stat = oc.stat
    old = stat.sample_uniform
    leaf = {}

    def su(rg, coins):
        next(iter(coins))
        t = ctx.data.get('last_tape')
        if t in leaf:
            return leaf[t]
        u = ctx.int('u')
        ctx.assume(sx_and(u >= rg.start, u <= rg.end))
        leaf[t] = u
        return u
    stat.sample_uniform = su
    try:
        e1 = step(x)
        e2 = step(y)
    finally:
        stat.sample_uniform = old
    ctx.check(sx_and(e1 >= r, e1 <= r + N - 1), 'ciphertext outside the output range')
    ctx.check(implies(x < y, e1 < e2), 'order not preserved by one recursion step')
    ctx.check(implies(x == y, e1 == e2), 'not deterministic')
    ctx.cover('induct')


def round_model(ctx):
    import z3

    def rm(e):
        # relational model of rounding to nearest double for values below 2^64: relative error <= 2^-53,
        # and a result of magnitude >= 2^53 is an integer
        k = ctx.data.setdefault('rm', {})
        e = z3.simplify(e)
        if e.get_id() in k:
            return k[e.get_id()][1]
        if z3.is_rational_value(e):
            return e
        v = z3.Real('fl%d' % len(k))
        a = z3.If(e >= 0, e, -e)
        ctx.add(z3.And(v - e <= a / 2 ** 53, e - v <= a / 2 ** 53))
        ctx.add(z3.Implies(a >= 2 ** 53, z3.ToReal(z3.ToInt(v)) == v))
        k[e.get_id()] = (e, v)
        return v
    return rm


def uniform(ctx, size):
    """sampling inside an interval: result in the interval, same bits -> same result"""
    cryptostub.start(ctx)
    s = ctx.int('s', -2 ** 63, 2 ** 63 - 1)
    bits = [ctx.int('bit', 0, 1) for _ in range(8)]
    rg = oc.ope.ValueRange(s, s + (size - 1))
    u = oc.stat.sample_uniform(rg, iter(bits))
    ctx.check(sx_and(u >= s, u <= s + size - 1), 'sample outside the interval')
    ctx.check(sx_and(rg.start == s, rg.end == s + size - 1), 'sampling changed the interval it was given')
    ctx.check(oc.stat.sample_uniform(rg, iter(bits)) == u, 'sampling not deterministic')
    ctx.observe('u', u)
    ctx.cover('uniform')


def sampler(ctx, good, bad, k):
    """real small-urn sampler: result always in the support of the distribution, for every draw"""
    cryptostub.start(ctx)
    H = oc.hgd

    class P:
        def __init__(self, coins=None):
            pass

        def draw(self):
            u = ctx.int('draw', 0, 2 ** 32 - 1)
            if ctx.symbolic:
                from symex.values import SymFloat, zr
                import z3
                return SymFloat(zr(u) / z3.RealVal(2 ** 32 - 1))
            return 1.0 * u / (2 ** 32 - 1)
    old = H.PRNG
    H.PRNG = P
    try:
        z = _RHYPER[0](k, good, bad, iter([]))
    finally:
        H.PRNG = old
    ctx.check(sx_and(z >= 0, z <= good, z <= k, z >= k - bad), 'sample outside the support of the distribution')
    ctx.observe('z', z)
    ctx.cover('sampler')


_RHYPER = [None]
_setup0 = setup


def setup(symbolic):  # noqa
    _setup0(symbolic)
    _RHYPER[0] = oc.hgd.HGD.rhyper


MUST_COVER = ('order', 'rejected', 'wide', 'induct', 'uniform', 'sampler')


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    sizes = [(1, 1), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (3, 5)] + ([(4, 6), (4, 8), (3, 8), (5, 7)] if t else [])
    for M, N in sizes:
        out.append(Scenario('order-%d-%d' % (M, N), order_small, dict(M=M, N=N),
                            'domain size %d, range size %d, offsets in [-4,4], every x<=y, every tape' % (M, N),
                            weight=M * N, max_paths=8000))
    out.append(Scenario('domain-3-5', out_of_domain, dict(M=3, N=5), 'integers in [-20,20] outside a size-3 domain'))
    for base in [0, -2, 2 ** 31 - 2, -2 ** 63, 2 ** 63 - 4] + ([10 ** 12, -10 ** 15, 2 ** 53 - 2, -2 ** 53 - 1, 2 ** 62 - 1] if t else []):
        out.append(Scenario('wide-%d' % base, wide, dict(base=base),
                            'production cipher, x<=y in [%d,%d]' % (base, base + 3), weight=20))
    out.append(Scenario('text', text_operand, {}, 'integers in [-2,2]', weight=5))
    out.append(Scenario('induct', induct, dict(wide_sizes=False),
                        'one recursion step, any interval sizes up to 2^53', weight=30))
    out.append(Scenario('induct-wide', induct, dict(wide_sizes=True),
                        'one recursion step, range sizes 2^53..2^64', weight=30,
                        witness=0))
    for n in range(1, 10 if not t else 33):
        out.append(Scenario('uniform-%d' % n, uniform, dict(size=n), 'interval of %d integers at any offset, 8 bits' % n))
    mx = 4 if not t else 5
    for g in range(1, mx + 1):
        for b in range(1, mx + 1):
            for k in range(1, (g + b + 1) // 2 + 1):    # the cipher only asks for the middle of the range
                if k <= 10:
                    out.append(Scenario('sampler-%d-%d-%d' % (g, b, k), sampler, dict(good=g, bad=b, k=k),
                                        'urn %d/%d, %d draws, every uniform draw' % (g, b, k)))
    return out
