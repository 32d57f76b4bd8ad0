"""Stand-ins for the cryptographic libraries, installed before the repo's modules are imported.

Symbolic mode (free-algebra / Dolev-Yao style, the trusted contract of each primitive):
  sha256, HMAC       injective functions of their input (no collisions)
  AES / SM4 block    per key a permutation of 16-byte blocks, otherwise arbitrary
  CBC                per (key, iv) a prefix-preserving injective transformation of block sequences
  CTR keystream      arbitrary bits, a function of (key, block index)
  base64             computed exactly on bytes, or kept as a reversible opaque text
With concrete operands every stand-in defers to the real library.
"""
import base64 as _b64
import hashlib as _hashlib
import hmac as _hmac
import os

import z3
import symex
from symex import values as V
from symex.values import SymBytes, SymStr, SymInt, Atom
from symex import active

_real_sha256 = _hashlib.sha256
_real_HMAC = _hmac.HMAC
_real_hmac_new = _hmac.new


def _ctx():
    return active()


def _sym(x):
    return V.is_sym(x)


def _memo(table, key_parts):
    """entry of `table` (list of [parts, value]) whose parts equal key_parts, forking on equality"""
    for parts, val in table:
        if len(parts) == len(key_parts) and all(bool(a == b) for a, b in zip(parts, key_parts)):
            return val
    return None


class StubHash:
    digest_size = 32
    block_size = 64
    name = 'sha256'

    def __init__(self, data=b'', kind='sha256', key=b''):
        self.kind, self.key, self.data = kind, key, data if data is not None else b''

    def update(self, d):
        if isinstance(d, SymStr) or isinstance(d, str):
            raise TypeError("Strings must be encoded before hashing")
        self.data = self.data + d

    def digest(self):
        if not _sym(self.data) and not _sym(self.key):
            if self.kind == 'sha256':
                return _real_sha256(self.data).digest()
            return _real_HMAC(self.key, self.data, _real_sha256).digest()
        c = _ctx()
        tab = c.data.setdefault('hash', [])
        v = _memo(tab, (self.kind, self.key, self.data))
        if v is None:
            v = _real_sha256(b'symbolic-%s-%d' % (self.kind.encode(), len(tab))).digest()
            tab.append(((self.kind, self.key, self.data), v))
        return v

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return StubHash(self.data, self.kind, self.key)


def sha256(data=b'', **k):
    if not _sym(data):
        return StubHash(data) if _ctx() is not None and _ctx().symbolic else _real_sha256(data)
    if isinstance(data, SymStr):
        raise TypeError("Strings must be encoded before hashing")
    return StubHash(data)


def HMAC(key, msg=None, digestmod=''):
    c = _ctx()
    if c is None or not c.symbolic:
        return _real_HMAC(key, msg, _real_sha256 if digestmod is sha256 else digestmod)
    return StubHash(msg if msg is not None else b'', 'hmac', key)


# ---- block ciphers

class StubAlgo:
    def __init__(self, key, name, real):
        self.key, self.name, self.real = key, name, real
        n = len(key)
        if name == 'AES' and n not in (16, 24, 32):
            raise ValueError("Invalid key size (%d) for AES." % (n * 8))


class _Op:
    def __init__(self, cipher, direction):
        self.c, self.dir = cipher, direction
        self.buf = b''
        self.state = 0
        self.prev = None
        self.done = False

    def _real(self):
        if not hasattr(self, 'rop'):
            from cryptography.hazmat.primitives.ciphers import modes
            a = _REAL['AES'](self.c.algo.key)
            rc = _REAL['Cipher'](a, self.c.mode, backend=_REAL['backend']())
            self.rop = rc.encryptor() if self.dir == 'e' else rc.decryptor()
        return self.rop

    def update(self, data):
        if isinstance(data, (str, SymStr)):
            raise TypeError("data must be bytes-like")
        mname = type(self.c.mode).__name__
        ctx = _ctx()
        if mname == 'CTR':
            if ctx is not None and ctx.data.get('keystream'):
                return keystream(ctx, self, data)
            return self._real().update(data)
        self.buf = self.buf + data
        n = len(self.buf) // 16 * 16
        chunk, self.buf = self.buf[:n], self.buf[n:]
        return self._blocks(chunk, mname)

    def _blocks(self, chunk, mname):
        ctx = _ctx()
        if ctx is None or not ctx.symbolic:
            return self._real().update(chunk)
        out = b''
        for i in range(0, len(chunk), 16):
            b = chunk[i:i + 16]
            if mname == 'ECB':
                dom = ('ecb',)
            elif mname == 'CBC':
                if self.prev is None:
                    self.prev = (self.c.mode.initialization_vector,)
                dom = ('cbc',) + self.prev
            else:
                raise V.Unsupported("mode %s" % mname)
            r = block(ctx, self.c.algo, dom, b, self.dir)
            if mname == 'CBC':
                self.prev = self.prev + ((r,) if self.dir == 'e' else (b,))
            out = out + r
        return out

    def finalize(self):
        mname = type(self.c.mode).__name__
        if mname in ('ECB', 'CBC') and len(self.buf) != 0:
            raise ValueError("The length of the provided data is not a multiple of the block length.")
        return b''


class BlockAtom(Atom):
    """16 bytes: image of `src` under the permutation (cipher, key, domain), or pre-image when dir == 'd'.
    Free algebra: equal images iff equal pre-images; never equal to bytes written any other way."""
    width = 16
    unforgeable = True

    def __init__(self, name, key, dom, src, dir):
        self.name, self.key, self.dom, self.src, self.dir = name, key, dom, src, dir

    def same(self, o):
        if not isinstance(o, BlockAtom) or o.name != self.name or o.dir != self.dir or len(o.dom) != len(self.dom):
            return False
        return V.sx_and(self.key == o.key, self.src == o.src, *[p == q for p, q in zip(self.dom, o.dom)])

    def __repr__(self):
        return '%s_%s(%r)' % (self.name, self.dir, self.src)


def block(ctx, algo, dom, b, direction):
    """image / pre-image of one 16-byte block under the permutation (key, dom)"""
    if isinstance(b, SymBytes) and len(b.items) == 1 and isinstance(b.items[0], BlockAtom):
        a = b.items[0]
        if a.name == algo.name and a.dir != direction and len(a.dom) == len(dom) and \
                all(bool(p == q) for p, q in zip(a.dom, dom)) and bool(a.key == algo.key):
            return a.src
    return SymBytes([BlockAtom(algo.name, algo.key, dom, b, direction)])


def keystream(ctx, op, data):
    """arbitrary pseudo-random bits as a function of (key, block index)"""
    tab = ctx.data.setdefault('ks', {})
    out = []
    n = len(data)
    for j in range(n // 16):
        kk = (bytes(op.c.algo.key), op.state)
        op.state += 1
        ctx.data['last_tape'] = kk
        if kk not in tab:
            order = len(tab)
            if ctx.symbolic:
                reg = ctx.data.setdefault('bytebits', {})
                items = []
                for i in range(16):
                    byte = z3.Int('ksbyte%d.%d' % (order, i))
                    bits = []
                    for t in range(8):
                        name = 'ks%d.%d.%d' % (order, i, t)
                        bv = z3.Bool(name)
                        ctx.inputs[name] = ('bool', bv)
                        bits.append(z3.If(bv, z3.IntVal(1), z3.IntVal(0)))
                    ctx.add(byte == z3.Sum([b * (1 << (7 - t)) for t, b in enumerate(bits)]))
                    reg[byte.get_id()] = bits
                    ctx.data.setdefault('keep', []).append(byte)
                    items.append(byte)
                tab[kk] = items
            else:
                items = []
                for i in range(16):
                    v = 0
                    for t in range(8):
                        v = v * 2 + int(bool(ctx._get('ks%d.%d.%d' % (order, i, t), False)))
                    items.append(v)
                tab[kk] = items
        out.extend(tab[kk])
    r = SymBytes.make(out)
    # XOR with the data; the repo only ever feeds zeros
    if data != b'\x00' * n:
        raise V.Unsupported("keystream over non-zero data")
    return r


class StubCipher:
    def __init__(self, algorithm, mode, backend=None):
        self.algo, self.mode = algorithm, mode

    def encryptor(self):
        return _Op(self, 'e')

    def decryptor(self):
        return _Op(self, 'd')


_REAL = {}


class StubSM4:
    """gmssl.sm4.CryptSM4 with PKCS#7 padding (mode 0), as documented by the library"""

    def __init__(self, mode=0, padding_mode=3):
        self._r = _REAL['SM4']()
        self.mode = 0
        self.key = None

    def set_key(self, key, mode):
        self.key = key
        self.mode = mode
        if not _sym(key):
            self._r.set_key(key, mode)

    def _pad(self, d):
        n = 16 - len(d) % 16
        return d + bytes([n]) * n

    def crypt_ecb(self, data):
        ctx = _ctx()
        if ctx is None or not ctx.symbolic:
            return self._r.crypt_ecb(data)
        if isinstance(data, (str, SymStr)):
            raise TypeError("bytes expected")
        # the library uses only the first 16 bytes of the key
        algo = StubAlgo.__new__(StubAlgo)
        algo.key, algo.name = self.key[:16], 'SM4'
        if self.mode == 0:
            data = self._pad(data)
        out = b''
        for i in range(0, len(data), 16):
            out = out + block(ctx, algo, ('ecb',), data[i:i + 16], 'e' if self.mode == 0 else 'd')
        if self.mode == 1:
            n = out[-1]
            if V.is_sym(n):
                n = symex.cur().concretize(n.e, 300)
            return out[:-n]
        return out

    def crypt_cbc(self, iv, data):
        ctx = _ctx()
        if ctx is None or not ctx.symbolic:
            return self._r.crypt_cbc(iv, data)
        raise V.Unsupported("SM4 CBC")


class StubPKCS7:
    def __init__(self, bits):
        self.n = bits // 8

    def padder(self):
        return _Padder(self.n)

    def unpadder(self):
        return _Unpadder(self.n)


class _Padder:
    def __init__(self, n):
        self.n, self.buf = n, b''

    def update(self, d):
        self.buf = self.buf + d
        k = len(self.buf) // self.n * self.n
        out, self.buf = self.buf[:k], self.buf[k:]
        return out

    def finalize(self):
        k = self.n - len(self.buf)
        return self.buf + bytes([k]) * k


class _Unpadder:
    def __init__(self, n):
        self.n, self.buf = n, b''

    def update(self, d):
        self.buf = self.buf + d
        k = max(0, (len(self.buf) - 1) // self.n * self.n)
        out, self.buf = self.buf[:k], self.buf[k:]
        return out

    def finalize(self):
        if len(self.buf) != self.n:
            raise ValueError("Invalid padding bytes.")
        k = self.buf[-1]
        if V.is_sym(k):
            k = symex.cur().concretize(k.e, 300)
        if k < 1 or k > self.n or not (self.buf[-k:] == bytes([k]) * k):
            raise ValueError("Invalid padding bytes.")
        return self.buf[:-k]


class B64Atom(Atom):
    """base64 text of a byte string"""
    charset = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')
    unforgeable = True

    def __init__(self, data):
        self.data = data

    def same(self, o):
        return (self.data == o.data) if isinstance(o, B64Atom) else False

    def length(self):
        return (len(self.data) + 2) // 3 * 4

    def concrete(self, m):
        return _b64.b64encode(V.to_concrete(self.data, m)).decode()

    def __repr__(self):
        return 'b64(%r)' % (self.data,)


_real_b64e, _real_b64d = _b64.b64encode, _b64.b64decode


def b64encode(s, altchars=None):
    if not _sym(s):
        return _real_b64e(s, altchars)
    if isinstance(s, SymStr):
        raise TypeError("a bytes-like object is required, not 'str'")
    if _ctx().data.get('b64exact'):
        return _b64_exact(s)
    return SymBytes([B64Atom(s)])


_ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def _b64_exact(s):
    """character-level base64 of symbolic bytes (no opaque fragments)"""
    reg = _ctx().data.setdefault('b64', {})
    items, out = list(s.items), []
    for i in range(0, len(items), 3):
        g = [V.zi(x) if not isinstance(x, int) else z3.IntVal(x) for x in items[i:i + 3]]
        n = len(g)
        g += [z3.IntVal(0)] * (3 - n)
        sx = [g[0] / 4, (g[0] % 4) * 16 + g[1] / 16, (g[1] % 16) * 4 + g[2] / 64, g[2] % 64]
        for k, v in enumerate(sx):
            if k > n:
                out.append(ord('='))
                continue
            v = z3.simplify(v)
            if z3.is_int_value(v):
                out.append(ord(_ALPHA[v.as_long()]))
                continue
            c = z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, 43, 47))))
            k = z3.Int('b64c%d' % len(reg))
            _ctx().add(k == c)
            c = k
            reg[c.get_id()] = (c, v)
            out.append(c)
    return SymBytes(out)


def _b64_exact_dec(s):
    reg = _ctx().data.get('b64', {})
    items = [i for i in s.items]
    if len(items) % 4:
        raise ValueError("Incorrect padding")
    out = []
    for i in range(0, len(items), 4):
        g, n = [], 3
        for k, c in enumerate(items[i:i + 4]):
            if isinstance(c, int):
                if c == 61:
                    n = min(n, k - 1)
                    g.append(z3.IntVal(0))
                else:
                    g.append(z3.IntVal(_ALPHA.index(chr(c))))
            elif c.get_id() in reg:
                g.append(reg[c.get_id()][1])
            else:
                raise V.Unsupported("base64 decoding of %r" % (s,))
        b = [g[0] * 4 + g[1] / 16, (g[1] % 16) * 16 + g[2] / 4, (g[2] % 4) * 64 + g[3]]
        out += [z3.simplify(x) for x in b[:n]]
    return SymBytes.make(out)


def b64decode(s, altchars=None, validate=False):
    if not _sym(s):
        return _real_b64d(s, altchars, validate)
    items = list(s.items)
    if _ctx().data.get('b64exact'):
        return _b64_exact_dec(s)
    out = b''
    for i in items:
        if isinstance(i, B64Atom):
            out = out + i.data
        else:
            raise V.Unsupported("base64 decoding of %r" % (s,))
    if sum(isinstance(i, B64Atom) for i in items) > 1:
        # decoding stops / misaligns at interior padding
        for i in items[:-1]:
            if len(i.data) % 3:
                raise V.Unsupported("concatenated base64 with padding")
    return out


class StubFernet:
    """Fernet: authenticated encryption with a random token; decrypt inverts encrypt under the same key"""

    def __init__(self, key, backend=None):
        self.key = key
        self._r = _REAL['Fernet'](key) if not _sym(key) else None

    def encrypt(self, data):
        ctx = _ctx()
        if ctx is None or not ctx.symbolic:
            return self._r.encrypt(data)
        if isinstance(data, (str, SymStr)):
            raise TypeError("data must be bytes")
        return SymBytes([FernetAtom(self.key, data, len(ctx.data.setdefault('fernet', [])))])

    def decrypt(self, tok, ttl=None):
        ctx = _ctx()
        if ctx is None or not ctx.symbolic:
            return self._r.decrypt(tok)
        if isinstance(tok, SymBytes) and len(tok.items) == 1 and isinstance(tok.items[0], FernetAtom) and \
                tok.items[0].key == self.key:
            return tok.items[0].data
        from cryptography.fernet import InvalidToken
        raise InvalidToken()


class FernetAtom(Atom):
    unforgeable = True
    charset = B64Atom.charset | frozenset('-_')

    def __init__(self, key, data, n):
        self.key, self.data, self.n = key, data, n

    def same(self, o):
        return self is o


def install():
    import cryptography.hazmat.primitives.ciphers as ciph
    import cryptography.hazmat.primitives.ciphers.algorithms as alg
    import cryptography.hazmat.primitives.ciphers.base as cbase
    import cryptography.hazmat.primitives.padding as pad
    import cryptography.fernet as fer
    from cryptography.hazmat.backends import default_backend
    import gmssl.sm4 as sm4
    _REAL.update(Cipher=ciph.Cipher, AES=alg.AES, SM4=sm4.CryptSM4, Fernet=fer.Fernet, backend=default_backend)

    default_backend()      # registers the real AES class before it is replaced

    class AES(StubAlgo):
        block_size = 128

        def __init__(self, key):
            super().__init__(key, 'AES', _REAL['AES'])
    ciph.Cipher = StubCipher
    cbase.Cipher = StubCipher
    if os.environ.get('VERIF_MODE') == 'concrete':
        return                # only the CTR keystream is ever replaced when replaying
    install_paillier()
    alg.AES = AES
    # modes validate the algorithm only inside the real Cipher, so they can stay
    pad.PKCS7 = StubPKCS7
    fer.Fernet = StubFernet
    sm4.CryptSM4 = StubSM4
    _hashlib.sha256 = sha256
    _hmac.HMAC = HMAC
    _hmac.new = HMAC
    _b64.b64encode = b64encode
    _b64.b64decode = b64decode


def start(ctx, keystream=False):
    """Reset per-path tables; call first in every scenario."""
    ctx.data.clear()
    ctx.data['keystream'] = keystream


# ---- Paillier (additive homomorphic): ciphertexts are free integers, products modulo n^2 decrypt to sums

class StubPublicKey:
    def __init__(self, n):
        self.g, self.n, self.nsquare, self.max_int = n + 1, n, n * n, n // 3 - 1
        self._r = _REAL_PHE['pub'](n)

    def __eq__(self, o):
        return self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def encrypt(self, value, precision=None, r_value=None):
        ctx = _ctx()
        if precision is not None or r_value is not None or not isinstance(value, (int, SymInt)):
            raise V.Unsupported('Paillier encryption of a non-integer')
        if abs(value) > self.max_int:
            raise ValueError('Integer needs to be within +/- %d but got something else' % self.max_int)
        tab = ctx.data.setdefault('paillier', [])
        c = z3.Int('paillier%d' % len(tab))
        ctx.add(z3.And(c >= 1, c < self.nsquare))
        tab.append((self.n, c, V.zi(value)))
        return StubEncrypted(self, V.SymInt(c))


class StubEncrypted:
    def __init__(self, public_key, ciphertext, exponent=0):
        if isinstance(ciphertext, StubEncrypted):
            raise TypeError('ciphertext should be an integer')
        self.public_key, self._c, self.exponent = public_key, ciphertext, exponent

    def ciphertext(self, be_secure=True):
        return self._c


class StubPrivateKey:
    def __init__(self, public_key, p, q):
        if p * q != public_key.n:
            raise ValueError('given public key does not match the given p and q.')
        if p == q:
            raise ValueError('p and q have to be different')
        self.public_key = public_key

    def decrypt(self, e):
        if not isinstance(e, StubEncrypted):
            raise TypeError('Expected encrypted_number to be an EncryptedNumber')
        if e.public_key != self.public_key:
            raise ValueError('encrypted_number was encrypted against a different key!')
        n = self.public_key.n
        ctx = _ctx()
        m = paillier_plain(ctx, n, e._c)
        if m is None:
            m = z3.Int(ctx.fresh_name('paillier.garbage'))
            ctx.add(z3.And(m >= 0, m < n))
        m = mkmod(z3.simplify(m), n)
        if ctx.branch(m <= self.public_key.max_int):
            return V.mkint(m)
        if ctx.branch(m >= n - self.public_key.max_int):
            return V.mkint(m - n)
        raise OverflowError('Overflow detected in decrypted number')


def mkmod(m, n):
    if z3.is_int_value(m):
        return z3.IntVal(m.as_long() % n)
    return m % n


def paillier_plain(ctx, n, c):
    """plaintext of a ciphertext term built from ciphertexts by products and reduction modulo n^2"""
    e = z3.IntVal(c) if isinstance(c, int) else c.e
    tab = ctx.data.get('paillier', [])

    def go(e):
        if z3.is_int_value(e):
            return z3.IntVal(0) if e.as_long() == 1 else None
        for n2, c2, m in tab:
            if c2.eq(e):
                return m if n2 == n else None
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            ms = [go(x) for x in e.children()]
            return None if any(x is None for x in ms) else z3.Sum(ms)
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == n * n:
            return go(e.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)):
            m = go(e.arg(0))
            return None if m is None else m * e.arg(1)
        return None
    return go(z3.simplify(e))


_REAL_PHE = {}


def install_paillier():
    from phe import paillier
    _REAL_PHE['pub'] = paillier.PaillierPublicKey
    if os.environ.get('VERIF_MODE') == 'concrete':
        return
    paillier.PaillierPublicKey = StubPublicKey
    paillier.PaillierPrivateKey = StubPrivateKey
    paillier.EncryptedNumber = StubEncrypted
