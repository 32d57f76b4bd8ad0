"""Path-exploring symbolic executor for CPython code (z3 back end).

A *scenario* is a Python function `scenario(ctx, **params)` which creates symbolic
inputs through `ctx`, runs the real code from /repo, and states assertions with
`ctx.check`.  The executor runs it once per feasible path: every time a symbolic
truth value reaches a branch (`SymBool.__bool__`) the solver is asked which sides
are feasible and the other side is queued (re-execution with a decision prefix).
`ctx.check(c)` asks the solver for a model of  path /\\ not c ; "unsat" means the
assertion holds for every input on that path.

The same scenario runs unchanged in *concrete* mode (`Concrete`), where inputs
come from a recorded model and the target is the plain, un-instrumented code:
that is how counterexamples are replayed and how path witnesses are validated.
"""
import time
import traceback
import z3


class Control(BaseException):
    """Engine control flow; never caught by `except Exception` in target code."""


class Infeasible(Control):
    pass


class PathDone(Control):
    pass


class Unsupported(Control):
    pass


class Budget(Control):
    pass


_CUR = [None]
_ACTIVE = [None]


def active():
    """The running context, symbolic or concrete (None outside a scenario)."""
    return _ACTIVE[0]



def cur():
    c = _CUR[0]
    if c is None:
        raise Unsupported("symbolic value used outside a scenario")
    return c


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.asserts = 0
        self.asserts_unsat = 0
        self.trivial_asserts = 0
        self.incomplete = 0
        self.unsupported = []
        self.slowest = 0.0

    def as_dict(self):
        d = dict(self.__dict__)
        d['unsupported'] = list(self.unsupported)[:20]
        return d

    def merge(self, d):
        for k, v in d.items():
            if k == 'unsupported':
                self.unsupported.extend(v)
            elif k == 'slowest':
                self.slowest = max(self.slowest, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Finding:
    """A failed assertion (or unexpected exception) with the inputs that cause it."""

    def __init__(self, kind, msg, inputs, known=None, detail=''):
        self.kind, self.msg, self.inputs, self.known, self.detail = kind, msg, inputs, known, detail

    def as_dict(self):
        return dict(kind=self.kind, msg=self.msg, inputs=self.inputs, known=self.known, detail=self.detail)


def _mk_solver(timeout_ms):
    s = z3.SimpleSolver() if False else z3.Solver()
    s.set('timeout', timeout_ms)
    return s


class Ctx:
    symbolic = True

    def __init__(self, explorer, prefix, asked=()):
        self.ex = explorer
        self.stats = explorer.stats
        self.solver = _mk_solver(explorer.timeout_ms)
        self.prefix = prefix
        self.asked = list(asked)        # the conditions decided so far
        self.pos = 0
        self.decisions = []
        self.inputs = {}      # name -> (kind, payload)
        self.known = []       # (kid, z3 bool | True)
        self.model_cache = None
        self.names = {}
        self.covered = []
        self.observed = []
        self.notes = {}
        self.pc = []
        self.data = {}        # free for stubs

    # ---- solver plumbing -------------------------------------------------
    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)
        if self.model_cache is not None:
            try:
                if not z3.is_true(self.model_cache.eval(e, model_completion=True)):
                    self.model_cache = None
            except z3.Z3Exception:
                self.model_cache = None

    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        self.stats.slowest = max(self.stats.slowest, dt)
        if r == z3.unknown:
            # one retry with a fresh solver (different tactic defaults)
            t = time.time()
            s2 = z3.Tactic('default').solver() if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s2.set('timeout', self.ex.timeout_ms * 2)
            for p in self.pc:
                s2.add(p)
            for a in assumptions:
                s2.add(a)
            r = s2.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unknown:
                self.stats.unknown += 1
            elif r == z3.sat:
                self._last_model = s2.model()
                return r
        elif r == z3.sat:
            self._last_model = self.solver.model()
        if time.time() > self.ex.deadline:
            raise Budget()
        return r

    def model(self):
        if self.model_cache is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self.model_cache = self._last_model
        return self.model_cache

    # ---- branching -------------------------------------------------------
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not self.asked[self.pos].eq(e) and self._check(self.asked[self.pos] != e) != z3.unsat:
                raise Unsupported("the code under test is not deterministic: the run of a decided path asks another question")
            self.pos += 1
            self.decisions.append(d)
            self.add(e if d else z3.Not(e))
            return d
        self.stats.branches += 1
        self.asked.append(e)
        self.pos += 1
        m = self.model()
        t_ok = f_ok = None
        if m is not None:
            v = m.eval(e, model_completion=True)
            if z3.is_true(v):
                t_ok = True
            elif z3.is_false(v):
                f_ok = True
        other_model = None
        if t_ok is None:
            r = self._check(e)
            t_ok = (r != z3.unsat)
            if r == z3.sat:
                other_model = ('t', self._last_model)
        if f_ok is None:
            r = self._check(z3.Not(e))
            f_ok = (r != z3.unsat)
            if r == z3.sat:
                other_model = ('f', self._last_model)
        if not t_ok and not f_ok:
            raise Infeasible()
        if t_ok and f_ok:
            self.ex.push(self.decisions + [False], self.asked)
            d = True
        else:
            d = bool(t_ok)
        self.decisions.append(d)
        if len(self.decisions) > self.ex.max_depth:
            self.stats.incomplete += 1
            raise Budget('depth')
        self.add(e if d else z3.Not(e))
        if self.model_cache is None and other_model and other_model[0] == ('t' if d else 'f'):
            self.model_cache = other_model[1]
        return d

    def concretize(self, e, limit=None):
        """Exhaustive fork over the feasible values of an Int term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        limit = limit or self.ex.concretize_limit
        lo = None
        for _ in range(limit):
            # smallest-first is deterministic across re-executions
            v = self._pick(e, lo)
            if self.branch(e == v):
                return v
        raise Unsupported("more than %d values when concretising %s" % (limit, str(e)[:80]))

    def _pick(self, e, lo):
        # deterministic pick: in prefix replay we must pick the same value as before
        key = ('pick', self.pos)
        tab = self.ex.picks
        k = (tuple(self.decisions), )
        if k in tab:
            return tab[k]
        m = self.model()
        if m is None:
            raise Unsupported("solver unknown while concretising")
        v = m.eval(e, model_completion=True).as_long()
        tab[k] = v
        return v

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    # ---- inputs ----------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        from .values import SymInt
        name = self.fresh_name(name)
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymInt(v)

    def real(self, name, lo=None, hi=None):
        from .values import SymFloat
        name = self.fresh_name(name)
        v = z3.Real(name)
        self.inputs[name] = ('real', v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymFloat(v)

    def bool(self, name):
        from .values import SymBool
        name = self.fresh_name(name)
        v = z3.Bool(name)
        self.inputs[name] = ('bool', v)
        return SymBool(v)

    def choice(self, name, options):
        """Nondeterministic choice of one of a finite list (forks)."""
        options = list(options)
        name = self.fresh_name(name)
        v = z3.Int(name)
        self.inputs[name] = ('int', v)
        self.add(v >= 0)
        self.add(v < len(options))
        for i in range(len(options) - 1):
            if self.branch(v == i):
                return options[i]
        self.add(v == len(options) - 1)
        return options[-1]

    def flag(self, name):
        """Nondeterministic bool, forked at once."""
        return self.choice(name, [False, True])

    def str(self, name, length, alphabet=None, exclude=None):
        """String of `length` symbolic characters. alphabet: list of (lo, hi) code ranges."""
        from .values import SymStr
        name = self.fresh_name(name)
        items = []
        for i in range(length):
            c = z3.Int("%s[%d]" % (name, i))
            self.add(self._in_ranges(c, alphabet))
            for x in (exclude or ()):
                self.add(c != ord(x))
            items.append(c)
        self.inputs[name] = ('str', items)
        return SymStr.make(items)

    def varstr(self, name, lo, hi, alphabet=None, exclude=None):
        n = self.choice(name + '.len', list(range(lo, hi + 1)))
        return self.str(name, n, alphabet, exclude)

    def bytes(self, name, length, lo=0, hi=255):
        from .values import SymBytes
        name = self.fresh_name(name)
        items = []
        for i in range(length):
            c = z3.Int("%s[%d]" % (name, i))
            self.add(z3.And(c >= lo, c <= hi))
            items.append(c)
        self.inputs[name] = ('bytes', items)
        return SymBytes.make(items)

    @staticmethod
    def _in_ranges(c, alphabet):
        if alphabet is None:
            # every Unicode scalar value
            return z3.Or(z3.And(c >= 0, c <= 0xD7FF), z3.And(c >= 0xE000, c <= 0x10FFFF))
        if isinstance(alphabet, str):
            alphabet = [(ord(x), ord(x)) for x in alphabet]
        return z3.Or(*[z3.And(c >= lo, c <= hi) if lo != hi else c == lo for lo, hi in alphabet])

    # ---- assertions ------------------------------------------------------
    def assume(self, cond):
        c = _as_z3(cond)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.add(c)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat:
                raise Infeasible()

    def known_region(self, kid, cond=True):
        """From here on, failures inside `cond` are instances of known finding `kid`."""
        if kid in self.ex.known_ids:
            c = _as_z3(cond)
            if c is not False:
                self.known.append((kid, c))

    def clear_known(self, kid):
        self.known = [(k, c) for k, c in self.known if k != kid]

    def check(self, cond, msg):
        c = _as_z3(cond)
        if self.pos >= len(self.prefix):
            self.stats.asserts += 1
            self.ex.tags[msg] = self.ex.tags.get(msg, 0) + 1
        if c is True:
            if self.pos >= len(self.prefix):
                self.stats.trivial_asserts += 1
                self.stats.asserts_unsat += 1
            return True
        if self.pos < len(self.prefix):
            # already decided by the run that created this prefix
            if c is False:
                raise PathDone()
            self.add(c)
            return True
        neg = z3.BoolVal(True) if c is False else z3.Not(c)
        self._report('assert', msg, neg)
        if c is False:
            raise PathDone()
        self.add(c)
        return True

    def _report(self, kind, msg, neg, detail=''):
        regions = [(k, z3.BoolVal(True) if r is True else r) for k, r in self.known]
        outside = z3.And(neg, *[z3.Not(r) for _, r in regions])
        r = self._check(outside)
        if r == z3.sat:
            self.ex.findings.append(Finding(kind, msg, self.model_inputs(self._last_model), None,
                                            detail or self.describe(self._last_model)))
        elif r == z3.unsat and not regions:
            self.stats.asserts_unsat += 1
        elif r == z3.unsat:
            bad = False
            for k, reg in regions:
                r2 = self._check(neg, reg)
                if r2 == z3.sat:
                    bad = True
                    self.ex.add_known(Finding(kind, msg, self.model_inputs(self._last_model), k,
                                              detail or self.describe(self._last_model)))
            if not bad:
                self.stats.asserts_unsat += 1

    def describe(self, m):
        out = []
        for label, v in self.notes.items():
            try:
                out.append("%s=%s" % (label, render(v, m)))
            except Exception as e:  # noqa
                out.append("%s=<%s>" % (label, type(e).__name__))
        return '; '.join(out)[:2000]

    def note(self, label, v):
        self.notes[label] = v

    def observe(self, label, v):
        """Value compared between the symbolic run (under the path model) and the concrete replay."""
        self.observed.append((label, v))

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, tag):
        self.covered.append(tag)

    def done(self):
        raise PathDone()

    # ---- models ----------------------------------------------------------
    def model_inputs(self, m):
        out = {}
        for name, (kind, p) in self.inputs.items():
            if kind == 'int':
                out[name] = ['int', m.eval(p, model_completion=True).as_long()]
            elif kind == 'real':
                q = m.eval(p, model_completion=True)
                out[name] = ['real', str(q.as_fraction()) if hasattr(q, 'as_fraction') else str(q)]
            elif kind == 'bool':
                out[name] = ['bool', z3.is_true(m.eval(p, model_completion=True))]
            elif kind == 'str':
                out[name] = ['str', [m.eval(c, model_completion=True).as_long() for c in p]]
            elif kind == 'bytes':
                out[name] = ['bytes', [m.eval(c, model_completion=True).as_long() for c in p]]
        return out


def _as_z3(cond):
    """-> True | False | z3 BoolRef"""
    from .values import SymBool, truth
    if isinstance(cond, SymBool):
        e = z3.simplify(cond.e)
    elif isinstance(cond, z3.BoolRef):
        e = z3.simplify(cond)
    else:
        t = truth(cond)
        if isinstance(t, bool):
            return t
        e = z3.simplify(t.e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def render(v, m):
    from .values import to_concrete
    return repr(to_concrete(v, m))


class Explorer:
    """Explores every feasible path of one scenario instance."""

    def __init__(self, known_ids=(), budget_s=60.0, max_paths=5000, timeout_ms=10000, max_depth=4000,
                 concretize_limit=64, n_witness=3, stop_after=3):
        self.known_ids = set(known_ids)
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.concretize_limit = concretize_limit
        self.work = [([], [])]
        self.picks = {}
        self.findings = []
        self.known_findings = {}
        self.tags = {}
        self.covered = {}
        self.witnesses = []
        self.n_witness = n_witness
        self.stop_after = stop_after
        self.errors = []
        self.probes = []

    def push(self, prefix, asked):
        self.work.append((list(prefix), list(asked)))

    def probe(self, ctx):
        """remember inputs that lead into the part of the code that could not be encoded"""
        if len(self.probes) >= 3:
            return
        _CUR[0] = ctx
        try:
            m = ctx.model()
            if m is not None:
                self.probes.append(ctx.model_inputs(m))
        except Control:
            pass
        finally:
            _CUR[0] = None

    def add_known(self, f):
        self.known_findings.setdefault(f.known, f)

    def run(self, fn, params):
        from . import values
        while self.work:
            if self.stats.paths + self.stats.infeasible >= self.max_paths or time.time() > self.deadline:
                self.stats.incomplete += len(self.work)
                break
            if len(self.findings) >= self.stop_after:
                break
            prefix, asked = self.work.pop()
            ctx = Ctx(self, prefix, asked)
            _CUR[0] = ctx
            _ACTIVE[0] = ctx
            finished = False
            try:
                fn(ctx, **params)
                finished = True
            except PathDone:
                finished = True
            except Infeasible:
                self.stats.infeasible += 1
                continue
            except Budget as e:
                self.stats.incomplete += 1 + (len(self.work) if not e.args else 0)
                if e.args:
                    continue
                break
            except Unsupported as e:
                self.stats.unsupported.append("%s @ %s" % (e, _where()))
                self.stats.incomplete += 1
                self.probe(ctx)
                continue
            except Control:
                raise
            except Exception as e:  # unexpected exception out of the code under test
                msg = "unexpected %s" % type(e).__name__
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if '/repo' in f.filename]
                where = "%s:%s" % (loc[-1].filename, loc[-1].lineno) if loc else 'harness'
                detail = "%s: %s at %s" % (type(e).__name__, str(e)[:200], where)
                if not loc:
                    self.errors.append("harness error in scenario %r: %s\n%s" % (
                        params, detail, ''.join(traceback.format_exc()[-1500:])))
                    self.stats.paths += 1
                    if len(self.errors) > 3:
                        break
                    continue
                if __import__('os').environ.get('VERIF_TB'):
                    open(__import__('os').environ['VERIF_TB'], 'a').write(traceback.format_exc())
                try:
                    self.stats.asserts += 1
                    ctx._report('exception', msg, z3.BoolVal(True), detail)
                except Budget:
                    pass
                except Infeasible:
                    pass
                self.stats.paths += 1
                continue
            finally:
                _CUR[0] = None
                _ACTIVE[0] = None
            if finished:
                self.stats.paths += 1
                for t in ctx.covered:
                    self.covered[t] = self.covered.get(t, 0) + 1
                if len(self.witnesses) < self.n_witness:
                    _CUR[0] = ctx
                    try:
                        m = ctx.model()
                        if m is not None:
                            obs = []
                            for label, v in ctx.observed:
                                try:
                                    obs.append([label, repr(values.to_concrete(v, m))])
                                except Exception as e:  # noqa
                                    obs.append([label, None])
                            self.witnesses.append(dict(inputs=ctx.model_inputs(m), observed=obs,
                                                       covered=list(ctx.covered),
                                                       hit_known=[k for k, _ in ctx.known]))
                    except Control:
                        pass
                    finally:
                        _CUR[0] = None
        return self


def _where():
    import sys
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    fr = [f for f in fr if '/lib/symex/' not in f.filename]
    return "%s:%s" % (fr[-1].filename, fr[-1].lineno) if fr else '?'


class CheckFailed(BaseException):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Diverged(Control):
    """The concrete run asked for an input the symbolic path never created."""


_STRICT = object()


class Concrete:
    """Concrete twin of Ctx: inputs come from a recorded model; target code is the plain code."""
    symbolic = False

    def __init__(self, inputs, fill=None):
        self.values = inputs
        self.names = {}
        self.observed = []
        self.covered = []
        self.data = {}
        self.notes = {}
        self.failed = []
        self.known_hit = []
        self.rnd = None
        if fill is not None:
            import random
            self.rnd = random.Random(fill)

    fresh_name = Ctx.fresh_name

    def _get(self, name, gen):
        name = self.fresh_name(name)
        if name not in self.values:
            if self.rnd is None:
                raise Diverged(name)
            self.values[name] = gen()
        return self.values[name][1]

    def _random_int(self, lo, hi):
        lo = -2 ** 40 if lo is None else lo
        hi = max(lo, 2 ** 40) if hi is None else hi
        r = self.rnd
        seen = [v[1] for v in self.values.values() if v[0] == 'int']
        pool = [0, 1, -1, 2, 3, 5, 9, 10, 11, 42, 99, 100, -7, 1000, lo, hi, lo + 1, hi - 1]
        pool += [x + d for x in seen for d in (0, 1, -1)] * 2
        pool = [x for x in pool if lo <= x <= hi]
        return r.choice(pool) if pool and r.random() < 0.8 else r.randint(lo, hi)

    def _random_text(self, n, alphabet, exclude):
        r = self.rnd
        seen = [v[1] for v in self.values.values() if v[0] == 'str' and len(v[1]) == n]
        if seen and r.random() < 0.4:
            return list(r.choice(seen))
        if alphabet is None:
            alphabet = [(0x20, 0x7e), (0x20, 0x7e), (0, 0xD7FF), (0xE000, 0x10FFFF)]
        elif isinstance(alphabet, str):
            alphabet = [(ord(x), ord(x)) for x in alphabet]
        out = []
        while len(out) < n:
            lo, hi = r.choice(alphabet)
            c = r.choice([lo, hi, min(lo + 1, hi), r.randint(lo, hi)])
            if chr(c) not in (exclude or ()):
                out.append(c)
        return out

    def int(self, name, lo=None, hi=None):
        return self._get(name, lambda: ['int', self._random_int(lo, hi)])

    def real(self, name, lo=None, hi=None):
        from fractions import Fraction
        return float(Fraction(self._get(name, lambda: ['real', '%d/8' % self._random_int(-100, 100)])))

    def bool(self, name):
        return self._get(name, lambda: ['bool', self.rnd.random() < 0.5])

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, lambda: ['int', self.rnd.randrange(len(options))])]

    def flag(self, name):
        return self.choice(name, [False, True])

    def str(self, name, length, alphabet=None, exclude=None):
        v = self._get(name, lambda: ['str', self._random_text(length, alphabet, exclude)])
        return ''.join(map(chr, v))

    def varstr(self, name, lo, hi, alphabet=None, exclude=None):
        n = self.choice(name + '.len', list(range(lo, hi + 1)))
        return self.str(name, n, alphabet, exclude)

    def bytes(self, name, length, lo=0, hi=255):
        return bytes(self._get(name, lambda: ['bytes', [self.rnd.randint(lo, hi) for _ in range(length)]]))

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def known_region(self, kid, cond=True):
        if cond:
            self.known_hit.append(kid)

    def clear_known(self, kid):
        self.known_hit = [k for k in self.known_hit if k != kid]

    def check(self, cond, msg):
        if not cond:
            raise CheckFailed(msg)
        return True

    def fail(self, msg):
        raise CheckFailed(msg)

    def note(self, label, v):
        self.notes[label] = v

    def observe(self, label, v):
        self.observed.append([label, repr(v)])

    def cover(self, tag):
        self.covered.append(tag)

    def done(self):
        raise PathDone()

    def concretize(self, e, limit=None):
        return e


def run_concrete(fn, params, inputs, fill=None):
    """-> (status, msg, detail, ctx); status in ok | failed | exception | infeasible"""
    c = Concrete(inputs, fill)
    _ACTIVE[0] = c
    try:
        fn(c, **params)
        return 'ok', '', '', c
    except PathDone:
        return 'ok', '', '', c
    except CheckFailed as e:
        return 'failed', e.msg, '; '.join("%s=%r" % kv for kv in c.notes.items())[:2000], c
    except Infeasible:
        return 'infeasible', '', '', c
    except Diverged as e:
        return 'diverged', str(e), '', c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/repo' in f.filename]
        where = "%s:%s" % (loc[-1].filename, loc[-1].lineno) if loc else 'harness'
        return ('exception', 'unexpected %s' % type(e).__name__,
                "%s: %s at %s" % (type(e).__name__, str(e)[:300], where), c)
