"""Shared fixtures for the pipeline properties: one table with every kind of column, filled through EulerDB and its plaintext twin."""
import os

import eu
import minisql
from eu import num, word, eighth, spec, World
from symex import sx_not

K1, K2 = eu.KEY, 'another-key'
TYPES = {'id': 'int', 'a': 'int', 'b': 'int', 'n': 'int', 's': 'varchar(20)', 'u': 'char(12)', 'w': 'varchar(10)',
         'f': 'float', 'd': 'double', 'g': 'float'}
ENC = {'a': {}, 'b': dict(key=K2), 's': dict(fuzzy=True), 'u': dict(key=K2), 'f': {}, 'd': dict(key=K2)}

ASSUMPTIONS = [
    'ciphers obey their contracts (properties C01-C07): AES text cipher deterministic, injective and invertible per key; '
    'order-preserving cipher strictly monotone and invertible per key; both free otherwise',
    'the database server is a MySQL subset (lib/minisql.py) with case-sensitive text comparison and no accidental equality '
    'between a ciphertext and unrelated text; a ciphertext is opaque to LIKE, ordering and arithmetic',
    'constants in the SQL text are numbers or letters/digits without quotes or backslashes (quoting is property S02); '
    'the SQL parser runs on the real text with marker constants that are replaced by symbolic values in its output',
]


def setup(symbolic):
    eu.install(symbolic)


def columns(cols):
    return ', '.join('%s %s' % (c, TYPES[c]) for c in cols)


# tables whose columns have the same names but are encrypted differently
ENC_OF = {'k2': {c: dict(o, key=K1 if 'key' in o else K2) for c, o in ENC.items()}, 'p2': {'n': {}, 'w': dict(key=K2)}}


def encs(cols, table='t'):
    enc = ENC_OF.get(table, ENC)
    return {c: spec(**enc[c]) for c in cols if c in enc}


def value(ctx, c, name, wlen=3, alphabet=eu.WORD):
    t = TYPES[c]
    if t == 'int':
        return num(ctx, name)
    if t in ('float', 'double'):
        return eighth(ctx, name)
    return word(ctx, name, wlen(name) if callable(wlen) else 1 if c == 'w' else wlen, alphabet)


def make(ctx, cols, table='t', world=None):
    w = world or World(ctx)
    w.create('create table %s (%s)' % (table, columns(cols)), encs(cols, table))
    return w


def fill(ctx, cols, rows=2, nulls=0, wlen=3, table='t', world=None, pre='', alphabet=eu.WORD):
    """table with `rows` rows of symbolic values, then `nulls` rows that have only an id; id is always a column"""
    cols = ['id'] + [c for c in cols if c != 'id']
    w = make(ctx, cols, table, world)
    vals = []
    for i in range(rows + nulls):
        r = dict(id=i + 1)
        for c in cols:
            if c != 'id' and i < rows:
                r[c] = value(ctx, c, '%s%s%d' % (pre, c, i), wlen, alphabet)
        insert(w, table, r)
        vals.append(r)
    return w, vals


def insert(w, table, r, only=None):
    lits, parts = dict(), []
    for c, v in r.items():
        lits[c] = v
        parts.append("'{%s}'" % c if minisql.is_text(v) else '{%s}' % c)
    w.both('insert into %s (%s) values (%s)' % (table, ', '.join(r), ', '.join(parts)), **lits)


ANY = [(0x20, 0x21), (0x23, 0x26), (0x28, 0x5b), (0x5d, 0x7e), (0xe0, 0xff), (0x4e00, 0x9fff), (0x1f600, 0x1f64f)]      # no quotes, no backslash


def lits(ctx, tpl, wlen=3, alphabet=None):
    """the constants a template uses: {i} {j} {k} integers, {x} {y} words, {c} one letter, {g} {h} eighths"""
    out = {}
    for k in 'ijk':
        if '{%s}' % k in tpl:
            out[k] = num(ctx, k)
    for k in 'xyz':
        if '{%s}' % k in tpl:
            out[k] = word(ctx, k, wlen, alphabet or eu.WORD)
    if '{c}' in tpl:
        out['c'] = word(ctx, 'c', 1)
    for k in 'gh':
        if '{%s}' % k in tpl:
            out[k] = eighth(ctx, k)
    return out


def names(tpl):
    """columns a template mentions"""
    import re
    t = re.sub(r"\{\w+\}|'[^']*'", ' ', tpl)
    return [c for c in TYPES if re.search(r'\b%s\b' % c, t)]


def control(e):
    """errors of the machinery are no refusals"""
    import symex
    if isinstance(e, (symex.Unsupported, symex.core.Control)):
        raise e
    import z3
    if isinstance(e, z3.Z3Exception):
        raise symex.Unsupported('z3: %s' % e)


def refused(w, tpl, **L):
    """run a statement that EulerDB may refuse: -> (refused, result, expected)"""
    target, text = w.render(tpl, L)
    n = len(w.server.db.log)
    try:
        p = w.plain.execute(text)
    except minisql.SqlError:
        # not part of the MySQL subset: it must not be applied to ciphertexts in any case
        try:
            w.invoke(target)
        except minisql.SqlError:
            w.ctx.check(not w.server.db.misuse, 'the server is asked to calculate with ciphertexts')
        except Exception as e:      # noqa
            control(e)
        raise
    try:
        r = w.invoke(target)
    except Exception as e:          # noqa: an error is a refusal
        control(e)
        if os.environ.get('VERIF_TB'):
            import traceback
            open(os.environ['VERIF_TB'], 'a').write(traceback.format_exc())
        w.ctx.check(not w.server.db.misuse, 'the server is asked to calculate with ciphertexts')
        return True, None, p
    return False, r, p
