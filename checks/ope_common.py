"""Shared harness of the order-preserving encryption properties."""
import z3
import symex
import cryptostub
from symex import sx_and, sx_or, sx_not, implies, iff
from symex.values import SymInt, zi, mkint


def setup(symbolic):
    cryptostub.install()
    global ope, encrypt, stat, hgd
    import scheduler.crypto.ope.ope as ope
    import scheduler.crypto.ope.stat as stat
    import scheduler.crypto.ope.hgd as hgd
    import scheduler.crypto.encrypt as encrypt


def hyper_contract(ctx, kk, nn1, nn2, r):
    ctx.assume(sx_and(r >= 0, r <= kk, r <= nn1, r >= kk - nn2))


def stub_rhyper(ctx):
    """HGD sampler: any value in the support of the hypergeometric distribution, a function of its arguments and tape"""
    tab = []

    def rhyper(kk, nn1, nn2, coins):
        if not isinstance(coins, (list, tuple)):
            next(iter(coins))
        tape = ctx.data.get('last_tape')
        for (a, b, c, t), r in tab:
            if t == tape and bool(a == kk) and bool(b == nn1) and bool(c == nn2):
                return r
        r = ctx.int('hgd')
        hyper_contract(ctx, kk, nn1, nn2, r)
        tab.append(((kk, nn1, nn2, tape), r))
        return r
    hgd.HGD.rhyper = staticmethod(rhyper)


def small(ctx, M, N, lo, hi):
    """fresh cipher factory over in_range [a, a+M-1], out_range [b, b+N-1] with symbolic offsets"""
    cryptostub.start(ctx, keystream=True)
    stub_rhyper(ctx)
    a = ctx.int('a', lo, hi)
    b = ctx.int('b', lo, hi)
    ctx.note('in_start', a)
    ctx.note('out_start', b)

    def mk():
        return ope.OPE(b'k' * 32, ope.ValueRange(a, a + (M - 1)), ope.ValueRange(b, b + (N - 1)))
    return a, b, mk
