"""C21 signature encodings, C22 key forms, C23 key arithmetic, C24 signing, C25 encryption, C26 hierarchical keys."""
import hmac as _hmac_module
import json, sys

with open(sys.argv[1]) as _f:
    PARAMS = json.load(_f)['params']
if PARAMS.get('aes') == 'pyaes':        # the other AES implementation
    sys.modules['Cryptodome'] = None
    sys.modules['Cryptodome.Cipher'] = None

# HMACs whose outcome cannot be found by search are forced.  Replaced before anything else can take a copy.
FORCED, HITS = [], [0]


def forced(key, msg, size):
    """The forced outcome of an HMAC-SHA512, if there is one."""
    if size != 64 or not FORCED:
        return None
    HITS[0] += 1
    for chain, last, digest in FORCED:
        if chain in ('*', bytes(key).hex()) and last == bytes(msg)[-4:].hex():
            return bytes.fromhex(digest)
    return None


_digest, _new = _hmac_module.digest, _hmac_module.new


def digest(key, msg, digest):
    r = _digest(key, msg, digest)
    return forced(key, msg, len(r)) or r


class ForcedHmac:
    def __init__(self, h, d):
        self._h, self._d = h, d

    def digest(self):
        return self._d

    def hexdigest(self):
        return self._d.hex()

    def __getattr__(self, name):
        return getattr(self._h, name)


def new(key, msg=None, digestmod=''):
    h = _new(key, msg, digestmod)
    d = None if msg is None else forced(key, msg, h.digest_size)
    return ForcedHmac(h, d) if d else h


_hmac_module.digest, _hmac_module.new = digest, new

import base64, hashlib
from lib import *
import bitcoinx as bx
from bitcoinx import PrivateKey, PublicKey, Signature, SigHash, InvalidSignatureError, DecryptionError, aes
from d_script import COINS, Gen, P, N, lift
NAMES = {id(c): n for n, c in COINS.items()}
fromhex = bytes.fromhex
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
if PARAMS.get('aes') == 'pyaes':
    must(getattr(aes, 'AES', None) is None)


def sha(b):
    return hashlib.sha256(b).digest()


def coin(x):
    return NAMES[id(x.coin())]


def hasher(h, **kw):
    """Keyword arguments for a hasher."""
    name, arg = h
    if name == 'default':
        return {}
    f = {'sha256': bx.sha256, 'double': bx.double_sha256, 'sha512': bx.sha512, 'hash160': bx.hash160,
         'sha1': lambda m: hashlib.sha1(m).digest(), 'const': lambda m: fromhex(arg), 'none': None}[name]
    return {'hasher': f}


def message(m):
    return m[1] if m[0] == 's' else fromhex(m[1])


@kept
def priv(h, compressed=True, c='Bitcoin'):
    return PrivateKey(fromhex(h).rjust(32, b'\0'), compressed, COINS[c])


ROOTED = bytes(9)
XNAMES = ('Bitcoin', 'BitcoinTestnet')      # the coins extended keys name


@kept
def xpriv(h, chain, c):
    """A hierarchical private key."""
    return bx.bip32_key_from_string(bx.base58_encode_check(COINS[c].xprv_verbytes + ROOTED + fromhex(chain) + b'\0' + fromhex(h).rjust(32, b'\0')))


@kept
def xpub(h, chain, c):
    return bx.bip32_key_from_string(bx.base58_encode_check(COINS[c].xpub_verbytes + ROOTED + fromhex(chain) + fromhex(h)))


@kept
def anypriv(h, compressed=True):
    """A private key, made in one of several ways that should not matter."""
    how = int(h[-2:], 16) % 5
    if how == 0 and compressed:
        return xpriv(h, h.rjust(64, '0'), 'Bitcoin')
    k = priv(h, compressed)
    if how == 1:
        return PrivateKey.from_WIF(k.to_WIF())
    if how == 2:
        return PrivateKey(k.to_bytes()[:], compressed, bx.BitcoinTestnet)
    return k


@kept
def anypub(h):
    how = int(h[10:12], 16) % 4 if len(h) == 66 else 9
    q = PublicKey.from_bytes(fromhex(h))
    if how == 0:
        return xpub(h, h[2:], 'Bitcoin')
    if how == 1:
        return q.complement()
    return q


def priv_text(k):
    return [k.to_bytes(), k.is_compressed(), coin(k), k.public_key.to_bytes()]


def pub_text(q):
    return [q.to_bytes(), coin(q)]


# ------------------------------------------------------------------ C21

@op
def der2c(a):
    return outcome(lambda: bx.der_signature_to_compact(fromhex(a[0])), InvalidSignatureError)


@op
def c2der(a):
    return outcome(lambda: bx.compact_signature_to_der(fromhex(a[0])), InvalidSignatureError)


@op
def bad_type(a):
    x = {'none': None, 'str': 'a' * 64, 'int': 64, 'list': [1] * 64}[a[0]]
    return outcome(lambda: bx.compact_signature_to_der(x), InvalidSignatureError)


@op
def sigobj(a):
    raw = fromhex(a[0])

    def f():
        s = Signature(raw)
        other = bytes([(raw[0] + 1) % 256]) + raw[1:]
        res = [s.to_bytes(), bytes(s), s.to_hex(), s.is_present(), s == raw and s == bytearray(raw) and not s != raw, s == Signature(bytes(raw)),
               s == other, hash(s) == hash(Signature(bytes(raw))), Signature.from_hex(raw.hex()) == s]
        out = [enc(x) for x in res]
        for g in (lambda: s.der_signature, lambda: int(s.sighash), s.to_compact, s.r_value, s.s_value):
            out.append(outcome(g, InvalidSignatureError))
        if s.is_present():
            h = s.sighash
            out += [enc(x) for x in (int(h.base), h.anyone_can_pay, h.to_string(), s.to_string(), Signature.from_der_sig(s.der_signature, int(h)) == s)]
        return out
    try:
        return '[' + ','.join(f()) + ']'
    except InvalidSignatureError:
        return '!InvalidSignatureError'


@op
def sighash(a):
    h = SigHash(a[0])
    return enc([int(h), int(h.base), h.anyone_can_pay, h.to_string()])


@rel
def msgform(a):
    k = priv(a[0], a[1])
    m = message(a[2])
    b = m.encode() if isinstance(m, str) else m
    full = bx.pack_varbytes('Bitcoin Signed Message:\n'.encode()) + bx.pack_varbytes(b)
    h = hasher(a[3]) or {'hasher': bx.double_sha256}
    return [k.sign_recoverable(full, **h).hex(), k.sign_message(m, **hasher(a[3])).hex(), k.sign_message_to_base64(m, **hasher(a[3]))]


# ------------------------------------------------------------------ C22

@op
def priv_forms(a):
    return forms_of(priv(*a), a[1])


@op
def priv_x(a):
    return forms_of(xpriv(*a), True)


def forms_of(k, compressed):
    wifs = [k.to_WIF(compressed=c, coin=COINS[n]) for n in ('Bitcoin', 'BitcoinTestnet', 'BitcoinScalingTestnet', 'BitcoinRegtest') for c in (True, False)]
    back = PrivateKey.from_WIF(k.to_WIF())
    others = [PrivateKey(k.to_bytes()),
              PrivateKey.from_int(k.to_int()), PrivateKey.from_hex(k.to_hex()), back]
    return enc([priv_text(k), k.to_int(), k.to_hex(), str(k), k.to_WIF(), wifs, k.to_WIF(compressed=not compressed), k.to_WIF(coin=bx.BitcoinTestnet),
                priv_text(back)] + [o == k and hash(o) == hash(k) and o.public_key == k.public_key for o in others])


def priv_res(f):
    return outcome(lambda: priv_text(f()), OverflowError, ValueError)


@op
def priv_bytes(a):
    return priv_res(lambda: PrivateKey(fromhex(a[0])))


def number(sign, h):
    v = int.from_bytes(fromhex(h), 'big')
    return -v if sign == '-' else v


@op
def priv_int(a):
    return priv_res(lambda: PrivateKey.from_int(number(*a)))


@op
def priv_hex(a):
    return priv_res(lambda: PrivateKey.from_hex(a[0]))


@op
def priv_arb(a):
    return priv_res(lambda: PrivateKey.from_arbitrary_bytes(fromhex(a[0])))


@op
def priv_mini(a):
    return priv_res(lambda: PrivateKey.from_minikey(a[0]))


@op
def priv_wif(a):
    return priv_res(lambda: PrivateKey.from_WIF(a[0]))


@op
def priv_text_(a):
    return priv_res(lambda: PrivateKey.from_text(a[0]))


OPS['priv_text'] = OPS.pop('priv_text_')


@op
def priv_random(a):
    chunks = [fromhex(x) for x in a]
    stream = iter(chunks)
    return priv_res(lambda: PrivateKey.from_random(source=lambda n: next(stream) if n == 32 else None))


@op
def bad_kind(a):
    x = {'none': None, 'str': 'a' * 32, 'int': 1, 'list': [1] * 32}[a[1]]
    return outcome(lambda: PrivateKey(x) if a[0] == 'priv' else PublicKey(x, True), TypeError, ValueError)


def pub_forms(q):
    x, y = q.to_point()
    back = PublicKey.from_point(x, y)
    must(back == q and hash(back) == hash(q) and q.complement() == q and not q.complement() != q)
    must(PublicKey.from_bytes(q.to_bytes()) == q)
    return [q.to_bytes(), q.to_hex(), str(q), q.to_bytes(compressed=True), q.to_bytes(compressed=False), q.to_hex(compressed=True), q.to_hex(compressed=False),
            x, y, q.is_compressed(), coin(q), q.hash160(), q.hash160(compressed=True), q.hash160(compressed=False), q.to_address().to_string(),
            [q.to_address(coin=c).to_string() for c in COINS.values()], q.to_address(compressed=False).to_string(), q.to_address(compressed=True).to_string(),
            pub_text(q.complement()), pub_text(q.complement().complement()), q.P2PK_script().to_bytes(), q.P2PKH_script().to_bytes()]


def pub_res(f):
    return outcome(lambda: pub_forms(f()), OverflowError, ValueError)


@op
def pub_bytes(a):
    return pub_res(lambda: PublicKey.from_bytes(fromhex(a[0])))


@op
def pub_hex(a):
    return pub_res(lambda: PublicKey.from_hex(a[0]))


@op
def pub_of(a):
    return pub_res(lambda: priv(*a).public_key)


@op
def pub_x(a):
    return pub_res(lambda: xpub(*a))


@op
def pub_of_x(a):
    return pub_res(lambda: xpriv(*a).public_key)


@op
def pub_point(a):
    return pub_res(lambda: PublicKey.from_point(number(a[0], a[1]), number(a[2], a[3])))


@op
def priv_same(a):
    x, y = priv(a[0], a[1]), priv(a[2], a[3], 'BitcoinTestnet')
    p, q = x.public_key, y.public_key
    return enc([x == y, x != y, True if len({x, y}) == 1 else None, p == q, p != q, True if len({p, q}) == 1 else None, x == p, p == p.to_bytes()])


# ------------------------------------------------------------------ C23

def key_text(k):
    return enc(priv_text(k) + [str(k), k.to_WIF()] if isinstance(k, PrivateKey) else pub_text(k) + [k.is_compressed(), str(k), k.to_address().to_string()])


def key_given(k):
    return {'priv': priv, 'pub': pub_with_coin, 'xprv': xpriv, 'xpub': xpub}[k[0]](*k[1:])


def arith_step(ks, s):
    k = ks[s[1] - 1]
    name = s[0]
    if name == 'pub':
        return k.public_key if isinstance(k, PrivateKey) else k
    if name == 'comp':
        if isinstance(k, PrivateKey):
            return PrivateKey(k.to_bytes(), not k.is_compressed(), k.coin())
        return k.complement()
    if name == 'add':
        return k.add(fromhex(s[2]))
    if name == 'mul':
        return k.multiply(fromhex(s[2]))
    if name == 'comb':
        return PublicKey.combine_keys([ks[j - 1] for j in s[2]])
    if name == 'ecdh':
        return k.ecdh_shared_secret(ks[s[2] - 1])
    if name == 'share':
        return k.shared_secret(ks[s[2] - 1], fromhex(s[3]), **hasher(s[4]))
    if name == 'badadd':
        return k.add(fromhex(s[2]))
    return k.multiply(fromhex(s[2]))


@op
def arith(a):
    ks = [key_given(k) for k in a[0]]
    out = []
    for s in a[1]:
        try:
            r = arith_step(ks, s)
            out.append('ok')
        except ValueError:
            r = ks[s[1] - 1]
            out.append('!ValueError')
        ks.append(r)
    return '[[' + ','.join(out) + '],[' + ','.join(key_text(k) for k in ks) + ']]'


def pub_with_coin(h, c):
    q = PublicKey.from_bytes(fromhex(h))
    if c == 'Bitcoin':
        return q
    # a public key gets its coin from its private key, or from a coin-specific constructor
    try:
        return PublicKey(q._public_key, q.is_compressed(), COINS[c])
    except (AttributeError, TypeError):
        x = bx.base58_encode_check(COINS[c].xpub_verbytes + bytes(41) + q.to_bytes(compressed=True))
        q2 = bx.bip32_key_from_string(x).multiply(bytes(31) + b'\1')
        return q2 if q.is_compressed() else q2.complement()


@op
def arith_bad(a):
    k = priv(a[0])
    k = k if a[1] == 'priv' else k.public_key
    x = {'none': None, 'str': 'a' * 32, 'int': 1, 'list': [1] * 32, 'b31': bytes(31), 'b33': bytes(32) + b'\1', 'b0': b'', 'b64': b'\1' * 64}[a[2]]
    return outcome(lambda: (k.add if a[4] == 'add' else k.multiply)(x), TypeError, ValueError)


# ------------------------------------------------------------------ C24

@sure
@rel
def sign(a):
    k = anypriv(a[0])
    m, h = fromhex(a[1]), hasher(a[2])
    return [k.sign(m, **h).hex(), PrivateKey(k.to_bytes(), False).sign(m, **h).hex(), k.sign_recoverable(m, **h).hex(), k.sign_recoverable(m, **h).hex()]


@sure
@rel
def sign_msg(a):
    k = anypriv(a[0], a[1])
    m, h = message(a[2]), hasher(a[3])
    return [k.sign_message(m, **h).hex(), k.sign_message_to_base64(m, **h), k.sign_message(m, **h).hex()]


def sigarg(x):
    return x[1] if x[0] == 's' else fromhex(x[1])


@op
def verify_der(a):
    q = anypub(a[0])
    return outcome(lambda: q.verify_der_signature(fromhex(a[1]), fromhex(a[2]), **hasher(a[3])), InvalidSignatureError, ValueError)


@op
def verify_rec(a):
    q = anypub(a[0])
    return outcome(lambda: q.verify_recoverable_signature(fromhex(a[1]), fromhex(a[2]), **hasher(a[3])), InvalidSignatureError, ValueError)


@op
def recover(a):
    return outcome(lambda: PublicKey.from_recoverable_signature(fromhex(a[0]), fromhex(a[1]), **hasher(a[2])).to_bytes(),
                   InvalidSignatureError, ValueError)


@op
def from_msg(a):
    return outcome(lambda: PublicKey.from_signed_message(sigarg(a[0]), message(a[1]), **hasher(a[2])).to_bytes(compressed=True), InvalidSignatureError, ValueError)


@op
def verify_msg(a):
    q = anypub(a[0])
    return outcome(lambda: q.verify_message(sigarg(a[1]), message(a[2]), **hasher(a[3])), InvalidSignatureError, ValueError)


def thing(kind, key=''):
    """Something that is no address of a key, though it may well have its hash."""
    if kind in ('none', 'bytes', 'int'):
        return {'none': None, 'bytes': b'1' * 34, 'int': 5}[kind]
    q = PublicKey.from_bytes(fromhex(key))
    return {'key': lambda: q, 'p2sh': lambda: bx.P2SH_Address(q.hash160(), bx.Bitcoin), 'p2pk': lambda: bx.P2PK_Output(q, bx.Bitcoin),
            'hash': q.hash160, 'script': lambda: q.to_address().to_script(), 'text bytes': lambda: q.to_address().to_string().encode(),
            'multi': lambda: bx.P2MultiSig_Output([q], 1), 'coin': lambda: bx.Bitcoin}[kind]()


@op
def verify_addr(a):
    kind = a[2]
    ad = (bx.P2PKH_Address(fromhex(kind[1]), COINS[kind[2]]) if kind[0] == 'obj' else kind[1] if kind[0] == 'text'
          else thing(*kind[1:]))
    return outcome(lambda: PublicKey.verify_message_and_address(sigarg(a[0]), message(a[1]), ad, **hasher(a[3])), TypeError, ValueError)


# ------------------------------------------------------------------ C25

@rel
def encrypt(a):
    k = anypriv(a[0], a[1])
    magic, m = fromhex(a[2]), message(a[3])
    kw = {} if magic == b'BIE1' else {'magic': magic}
    x, y = k.public_key.encrypt_message(m, **kw), k.public_key.encrypt_message_to_base64(m, **kw)
    return [x.hex(), y, k.decrypt_message(x, **kw).hex(), k.decrypt_message(y, **kw).hex()]


@op
def decrypt(a):
    magic = fromhex(a[1])
    kw = {} if magic == b'BIE1' else {'magic': magic}
    return outcome(lambda: anypriv(a[0]).decrypt_message(sigarg(a[2]), **kw), DecryptionError)


@op
def aes_enc(a):
    return enc(aes.aes_encrypt_with_iv(*(fromhex(x) for x in a)))


@op
def aes_dec(a):
    data = fromhex(a[2])
    try:
        return enc(aes.aes_decrypt_with_iv(fromhex(a[0]), fromhex(a[1]), data))
    except aes.BadPaddingError:
        return '!refused' if not data or len(data) % 16 else '!BadPaddingError'
    except Exception as e:
        return '!refused' if not data or len(data) % 16 else '!!' + type(e).__name__


# ------------------------------------------------------------------ C26

def node_text(x):
    d = x.derivation()
    prv = isinstance(x, bx.BIP32PrivateKey)
    s = x.to_extended_key_string()
    q = x.public_key if prv else x
    must(prv or str(x) == s)
    return enc([type(x).__name__, s, x.identifier(), x.fingerprint(), d.chain_code, d.depth, d.n, d.parent_fingerprint, coin(x),
                q.to_bytes(), q.to_extended_key_string()])


@op
def tree(a):
    root, steps, FORCED[:] = a[0], a[1], a[2]
    HITS[0] = 0
    try:
        try:
            if root[0] == 'seed':
                x = bx.BIP32PrivateKey.from_seed(fromhex(root[1]), COINS[root[2]])
            elif root[0] == 'random':
                data = fromhex(root[1])
                stream = iter([data[k:k + 64] for k in range(0, len(data), 64)])
                x = bx.BIP32PrivateKey.from_random(source=lambda n: next(stream))
            else:
                x = bx.bip32_key_from_string(root[1])
        except ValueError:
            return '!ValueError' if not a[2] or HITS[0] else 'skip'
        xs, out = [x], []
        for s in steps:
            x = xs[s[1] - 1]
            try:
                if s[0] == 'pub':
                    r = x.public_key if isinstance(x, bx.BIP32PrivateKey) else x
                elif s[0] == 'parse':
                    r = bx.bip32_key_from_string(x.to_extended_key_string())
                    must(r == x and r.derivation() == x.derivation() and hash(r) == hash(x))
                elif s[0] == 'child':
                    r = x.child(number(s[2], s[3]))
                else:
                    r = x.child_safe(number(s[2], s[3]))
                out.append('ok')
            except ValueError:
                r = x
                out.append('!ValueError')
            xs.append(r)
        if a[2] and not HITS[0]:
            return 'skip'
        return '[[' + ','.join(out) + '],[' + ','.join(node_text(x) for x in xs) + ']]'
    finally:
        FORCED[:] = []


# ------------------------------------------------------------------ inputs: independent arithmetic

GX, GY = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8


def jdbl(p):
    x, y, z = p
    a = y * y % P
    s = 4 * x * a % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * a * a) % P, 2 * y * z % P


def jadd(p, q):
    """q is affine."""
    if p is None:
        return q[0], q[1], 1
    x, y, z = p
    z2 = z * z % P
    h = (q[0] * z2 - x) % P
    r = (q[1] * z2 * z - y) % P
    if h == 0:
        return jdbl(p) if r == 0 else None
    h2 = h * h % P
    h3 = h2 * h % P
    v = x * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return x3, (r * (v - x3) - y * h3) % P, z * h % P


def mul(k, pt=(GX, GY)):
    r = None
    for b in bin(k)[2:]:
        r = jdbl(r) if r else None
        if b == '1':
            r = jadd(r, pt)
    zi = pow(r[2], -1, P)
    return r[0] * zi * zi % P, r[1] * zi * zi * zi % P


def add(p, q):
    r = jadd((p[0], p[1], 1), q)
    if r is None:
        return None
    zi = pow(r[2], -1, P)
    return r[0] * zi * zi % P, r[1] * zi * zi * zi % P


def ser(pt, form='c'):
    x, y = (v.to_bytes(32, 'big') for v in pt)
    return {'c': bytes([2 + pt[1] % 2]) + x, 'u': b'\4' + x + y, 'h': bytes([6 + pt[1] % 2]) + x + y}[form]


def b32(v):
    return v.to_bytes(32, 'big')


def ecdsa(d, h, k, flip=False):
    """r, s, id with nonce k (low s, or high if flip)."""
    pt = mul(k)
    r = pt[0] % N
    s = pow(k, -1, N) * (int.from_bytes(h, 'big') + r * d) % N
    i = (2 if pt[0] >= N else 0) + pt[1] % 2
    if (s > N // 2) != flip:
        s, i = N - s, i ^ 1
    return r, s, i


def der(r, s):
    def one(v):
        b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
        return b'\2' + bytes([len(b)]) + b
    body = one(r) + one(s)
    return b'\x30' + bytes([len(body)]) + body


def b58e(b):
    n, s = int.from_bytes(b, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58c(b):
    return b58e(b + sha(sha(b))[:4])


EDGE = [1, 2, 3, N - 1, N - 2, (N - 1) // 2, (N + 1) // 2, 1 << 255, 255, 256, 1 << 128, (1 << 128) - 1]
OUT = [0, N, N + 1, P, (1 << 256) - 1]


# secrets whose points begin or end, in x, y or the hash of the key, with zero bytes, ones or blanks
SHAPED = [338, 724, 541, 2155, 878, 2966, 1300, 2982, 1917, 47886, 8480, 30787, 10916, 114662, 22838, 64894, 41192, 394851, 42104, 97735,
          44629, 58165, 91835, 215193, 107023, 248470, 115187, 120080, 202760, 303988]
SHAPED += [N - k for k in SHAPED]


def shaped_number(rng, below):
    """A number that as 32 bytes begins or ends with zero bytes, ones or blanks, or reads as text."""
    k = rng.randrange(1, 31)
    some = rng.randbytes(32)
    lead = rng.choice((b'\0', b'\0', b'\xff', b' ', b'\n', b'0', b'\t', b'\x80', b'\x01', b'\x04'))
    v = rng.choice((lambda: lead * k + some[k:], lambda: some[:32 - k] + lead * k, lambda: lead + some[1:31] + lead,
                    lambda: bytes(rng.choice(b'0123456789abcdef') for _ in range(32)), lambda: some[:k] + bytes(32 - k)))()
    v = int.from_bytes(v, 'big')
    return v if 0 < v < below else rng.choice(EDGE)


def shaped_point(rng):
    """A point with such a coordinate."""
    while True:
        v = shaped_number(rng, P)
        if rng.random() < .5:
            y = lift(v, rng.randrange(2))
            if y is not None:
                return v, y
        else:
            x = pow(v * v - 7, (P + 2) // 9, P)
            if pow(x, 3, P) == (v * v - 7) % P:
                return x, v


def secret(rng):
    if rng.random() < .2:
        return rng.choice((rng.choice(SHAPED), shaped_number(rng, N)))
    return rng.choice(EDGE) if rng.random() < .3 else rng.choice((rng.randrange(1, N), rng.randrange(1, N), rng.randrange(1, 1 << 200)))


def hx(v):
    return b32(v).hex()


def damage(rng, b):
    b = bytearray(b)
    how = rng.randrange(6)
    k = rng.randrange(len(b)) if b else 0
    if how == 0 and b:
        b[k] ^= 1 << rng.randrange(8)
    elif how == 1 and b:
        b[k] = rng.randrange(256)
    elif how == 2 and b:
        del b[k]
    elif how == 3:
        b.insert(rng.randrange(len(b) + 1), rng.randrange(256))
    elif how == 4:
        b = b[:k]
    else:
        b += rng.randbytes(rng.randrange(1, 4))
    return bytes(b)


def given_forms(rng, d, m):
    """A message signature, its recovery id, and bytes and texts given for it: good, other heads, damaged."""
    b = message(m)
    b = b.encode() if isinstance(b, str) else b
    ln = len(b)
    full = b'\x18Bitcoin Signed Message:\n' + (bytes([ln]) if ln < 253 else b'\xfd' + ln.to_bytes(2, 'little') if ln < 65536 else b'\xfe' + ln.to_bytes(4, 'little')) + b
    r, s, i = ecdsa(d, sha(sha(full)), rng.randrange(1, N), rng.random() < .15)
    body = b32(r) + b32(s)
    forms = []
    for head in [27 + i, 31 + i, 27 + (i ^ 1), 31 + (i ^ 1), rng.randrange(27, 35), rng.randrange(256), 26, 35]:
        sg = bytes([head]) + body
        forms += [['b', sg.hex()], ['s', base64.b64encode(sg).decode()]]
    good = bytes([31 + i]) + body
    t = base64.b64encode(good).decode()
    k = rng.randrange(len(t))
    forms += [['b', damage(rng, good).hex()], ['b', ''], ['s', ''], ['s', t[:-1]], ['s', t + '='], ['s', t + '\n'], ['s', ' ' + t], ['s', t + ' '], ['s', '\t' + t + '\r\n'],
              ['s', t[:k] + ' ' + t[k:]], ['s', t[:k] + '\n' + t[k:]], ['s', t[:k] + '-' + t[k + 1:]],
              ['s', t[:k] + rng.choice('ABCabc019+/') + t[k + 1:]], ['s', t + 'AAAA'], ['s', t[:k]], ['s', t.rstrip('=')], ['s', '\xe9' + t[1:]], ['s', good.hex()],
              ['s', t[:-2] + chr(ord(t[-2]) + 1) + '='], ['b', (good + b'\0').hex()], ['b', good[:-1].hex()]]
    return good, i, forms


def in21(rng, thorough):
    n = 10 if thorough else 2
    g = Gen(rng)
    vals = [0, 1, 2, 127, 128, 255, 256, 1 << 247, (1 << 247) - 1, (1 << 255) - 1, 1 << 255, N - 1, N // 2, N // 2 + 1, N, N + 1, (1 << 256) - 1]
    for r in vals:
        for s in vals:
            yield 'c2der', [(b32(r) + b32(s)).hex()]
            yield 'der2c', [der(r, s).hex()]
            yield 'sigobj', [(der(r, s) + bytes([rng.randrange(256)])).hex()]
    wide = [1 << 256, (1 << 256) + 5, 1 << 263, 1 << 264, 1 << 300]
    for r in wide:
        for s in (1, N - 1, r):
            for x, y in ((r, s), (s, r)):
                yield 'der2c', [der(x, y).hex()]
    for length in list(range(0, 70)) + [96, 127, 128, 129]:
        yield 'c2der', [rng.randbytes(length).hex()]
        yield 'c2der', [bytes(length).hex()]
        yield 'der2c', [rng.randbytes(length).hex()]
        yield 'sigobj', [rng.randbytes(length).hex()]
        yield 'sigobj', [(b'\xff' * length).hex()]
    for _ in range(400 * n):
        d = g.der()
        yield 'der2c', [d.hex()]
        yield 'sigobj', [(d + bytes([rng.randrange(256)])).hex()]
        good = der(rng.getrandbits(rng.choice((256, 255, 248, 8))), rng.getrandbits(rng.choice((256, 255, 248, 8))))
        yield 'der2c', [good.hex()]
        yield 'der2c', [damage(rng, good).hex()]
        yield 'sigobj', [damage(rng, good).hex()]
        yield 'c2der', [(b32(rng.choice(vals + [rng.getrandbits(256)])) + b32(rng.choice(vals + [rng.getrandbits(256)]))).hex()]
    # every byte of one signature, every value
    base = der(rng.getrandbits(256) | 1 << 255, rng.getrandbits(250))
    for k in range(len(base)):
        for v in (range(256) if k < 6 or thorough else [0, 1, 2, 127, 128, 255, base[k] ^ 1]):
            yield 'der2c', [(base[:k] + bytes([v]) + base[k + 1:]).hex()]
    for k in range(len(base)):
        yield 'der2c', [base[:k].hex()]
        yield 'sigobj', [base[:k].hex()]
        yield 'der2c', [(base + bytes(k + 1)).hex()]
    for h in range(256):
        yield 'sighash', [h]
        yield 'sigobj', [(base + bytes([h])).hex()]
    yield 'sigobj', ['ff']
    for t in ('none', 'str', 'int', 'list'):
        yield 'bad_type', [t]
    for _ in range(60 * n):
        yield 'msgform', [hx(secret(rng)), rng.random() < .5, msg(rng), rng.choice(HASHERS[:4])]
    # recoverable and message forms are read back, or refused
    for _ in range(10 * n):
        d, m = secret(rng), msg(rng)
        good, i, forms = given_forms(rng, d, m)
        for x in forms:
            yield 'from_msg', [x, m, ['default', '']]
        h = rng.randbytes(32).hex()
        body = good[1:]
        for x in [body + bytes([v]) for v in (0, 1, 2, 3, 4, 5, 27, 31, 127, 128, 255)] + [body, good, b'', body[:-1] + bytes(1), body + b'\0\0', damage(rng, body + bytes([i]))]:
            yield 'recover', [x.hex(), h, ['none', '']]
    for r in (0, 1, N - 1, N, N + 1, (1 << 256) - 1):
        for s in (0, 1, N - 1, N, (1 << 256) - 1):
            for i in range(4):
                yield 'recover', [(b32(r) + b32(s) + bytes([i])).hex(), rng.randbytes(32).hex(), ['none', '']]
                yield 'from_msg', [['b', (bytes([27 + 4 * (i & 1) + i]) + b32(r) + b32(s)).hex()], ['b', ''], ['default', '']]


HASHERS = [['default', ''], ['sha256', ''], ['double', ''], ['const', hx(N)], ['none', ''], ['sha512', ''], ['hash160', ''], ['sha1', ''], ['const', ''],
           ['const', 'ab' * 31], ['const', 'ab' * 33]]


def msg(rng):
    k = rng.randrange(8)
    if k == 0:
        return ['s', rng.choice(('', 'a', 'Hello', 'h\xe9llo', '\u65e5\u672c', '\U0001f600', ' ', '\n', 'cafe\u0301', '\u212b\ufb01', ' a ', 'a\r\nb', '\ufeffa\t', '\u0130\xdf', 'a\0', 'x' * 252, 'x' * 253, 'y' * 300, '\xe9' * 126, '\xe9' * 127))]
    if k == 1:
        return ['b', rng.randbytes(rng.choice((0, 1, 252, 253, 254, 255, 256, 65535, 65536) if rng.random() < .2 else (0, 1, 252, 253, 254))).hex()]
    if k < 4:
        return ['s', ''.join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(40)))]
    return ['b', rng.randbytes(rng.randrange(64)).hex()]


def in22(rng, thorough):
    n = 10 if thorough else 2
    g = Gen(rng)
    names = list(COINS)
    for d in EDGE + [secret(rng) for _ in range(60 * n)]:
        for c in (True, False):
            yield 'priv_forms', [hx(d), c, rng.choice(names)]
            yield 'pub_of', [hx(d), c, rng.choice(names)]
    for d in rng.sample(SHAPED, len(SHAPED) if thorough else 20) + [41192, 8480]:
        yield 'pub_of', [hx(d), rng.random() < .5, rng.choice(names)]
    for _ in range(60 * n):
        x, y = shaped_point(rng)
        yield 'pub_point', ['', hx(x), '', hx(y)]
        yield rng.choice(('pub_bytes', 'pub_hex')), [ser((x, y), rng.choice('cu')).hex()]
        yield 'priv_forms', [hx(shaped_number(rng, N)), rng.random() < .5, rng.choice(names)]
    for name in names:
        for _ in range(n if name in XNAMES else 0):
            yield 'priv_x', [hx(secret(rng)), rng.randbytes(32).hex(), name]
            yield 'pub_of_x', [hx(secret(rng)), rng.randbytes(32).hex(), name]
            yield 'pub_x', [ser(mul(secret(rng))).hex(), rng.randbytes(32).hex(), name]
        for c in (True, False):
            yield 'priv_forms', [hx(secret(rng)), c, name]
            yield 'pub_of', [hx(secret(rng)), c, name]
    for v in EDGE + OUT:
        yield 'priv_bytes', [hx(v)]
        yield 'priv_hex', [hx(v)]
        yield 'priv_hex', [hx(v).upper()]
        yield 'priv_text', [hx(v)]
        yield 'priv_int', ['', hx(v)]
        yield 'priv_arb', [hx(v)]
        for ver in (128, 239):
            for tail in (b'', b'\1'):
                yield 'priv_wif', [b58c(bytes([ver]) + b32(v) + tail)]
                yield 'priv_text', [b58c(bytes([ver]) + b32(v) + tail)]
    for v in (1, N - 1, 1 << 256):
        yield 'priv_int', ['-', v.to_bytes(33, 'big').hex()]
    for v in (1 << 256, (1 << 256) + 1, 1 << 300, N << 8, 1 << 264):
        yield 'priv_int', ['', v.to_bytes(40, 'big').hex()]
    for v in (0, 1, N - 1, N, N + 1, 2 * N, 2 * N + 1, N * N, N * 12345 + 7, (1 << 512) - 1):
        for length in (65, 100):
            yield 'priv_arb', [v.to_bytes(length, 'big').hex()]
    for length in list(range(0, 70)):
        b = rng.randbytes(length)
        yield 'priv_arb', [b.hex()]
        yield 'priv_bytes', [b.hex()]
        yield 'priv_hex', [b.hex()]
        yield 'priv_bytes', [(bytes(length) + b'\1').hex()]
        for ver in (128, 239):
            yield 'priv_wif', [b58c(bytes([ver]) + b)]
            yield 'priv_wif', [b58c(bytes([ver]) + b + b'\1')]
    for ver in range(256):
        yield 'priv_wif', [b58c(bytes([ver]) + b32(secret(rng)) + b'\1')]
        yield 'priv_text', [b58c(bytes([ver]) + b32(secret(rng)))]
        yield 'priv_wif', [b58c(bytes([128]) + b32(secret(rng)) + bytes([ver]))]
    for t in ('', ' ', 'S', '0' * 63, '0' * 65, 'g' * 64, '0' * 63 + '1', '0' * 63 + 'G', 'A' * 64, '\xe9' * 64, '\uff11' * 64, 'S' * 22, '5' * 51, '1' * 64, '0x' + '1' * 62):
        yield 'priv_text', [t]
        yield 'priv_wif', [t]
        yield 'priv_mini', [t]
        if t.strip() == t:
            yield 'priv_hex', [t]
    # hex that is read with white space is not explored for from_hex; as text of 64 characters it is never 32 bytes
    yield 'priv_text', ['00 ' * 21 + '1']
    for _ in range(60 * n):
        length = rng.choice((22, 30))
        while True:
            t = 'S' + ''.join(rng.choice(B58) for _ in range(length - 1))
            if sha((t + '?').encode())[0] == 0:
                break
        yield 'priv_mini', [t]
        yield 'priv_text', [t]
        k = rng.randrange(length)
        u = t[:k] + rng.choice(B58 + '0OIl?') + t[k + 1:]
        yield 'priv_mini', [u]
        yield 'priv_text', [u]
        for m in (21, 23, 26, 29, 31):
            while True:
                u = 'S' + ''.join(rng.choice(B58) for _ in range(m - 1))
                if sha((u + '?').encode())[0] == 0:
                    break
            yield 'priv_mini', [u]
            yield 'priv_text', [u]
        w = b58c(bytes([rng.choice((128, 239))]) + b32(secret(rng)) + rng.choice((b'', b'\1')))
        k = rng.randrange(len(w))
        yield 'priv_wif', [w[:k] + rng.choice(B58) + w[k + 1:]]
        yield 'priv_text', [w[:k] + w[k + 1:]]
        yield 'priv_wif', [w + rng.choice(B58)]
        yield 'priv_wif', [' ' + w]
    # text with something around it
    for k in range(12 * n):
        while True:
            t = 'S' + ''.join(rng.choice(B58) for _ in range(rng.choice((21, 29))))
            if sha((t + '?').encode())[0] == 0:
                break
        w = b58c(bytes([rng.choice((128, 239))]) + b32(secret(rng)) + rng.choice((b'', b'\1')))
        around = (' ', '\n', '\t', '\r\n', '\0', '\u3000', '\ufeff', '"', '0x', ':', '1')[k % 11]
        for u in (t, w, hx(secret(rng))):
            for v in (around + u, u + around, around + u + around):
                yield 'priv_text', [v]
                if len(u) != 64:
                    yield 'priv_wif', [v]
                    yield 'priv_mini', [v]
    for _ in range(20 * n):
        yield 'priv_random', [hx(rng.choice(OUT)) for _ in range(rng.randrange(4))] + [hx(secret(rng))] + [hx(secret(rng))]
    for what in ('priv', 'pub'):
        for t in ('none', 'str', 'int', 'list'):
            yield 'bad_kind', [what, t]
    for _ in range(100 * n):
        k = g.key()
        yield 'pub_bytes', [k.hex()]
        yield 'pub_hex', [k.hex().upper() if rng.random() < .3 else k.hex()]
        b = g.badkey()
        yield 'pub_bytes', [b.hex()]
        yield 'pub_hex', [b.hex()]
        yield 'pub_bytes', [damage(rng, k).hex()]
        t = k.hex()
        yield 'pub_hex', [t[:-1]]
        yield 'pub_hex', [t[:-1] + 'g']
        x = rng.randrange(P)
        y = lift(x, 0)
        for yy in ([y, P - y, y + 1, (P - y) ^ 1] if y is not None else [1, 0]):
            yield 'pub_point', ['', hx(x), '', hx(yy)]
    for length in range(0, 70):
        yield 'pub_bytes', [bytes([rng.randrange(8)]).hex() + rng.randbytes(length).hex()]
        yield 'pub_bytes', [bytes(length).hex()]
    for first in range(256):
        yield 'pub_bytes', [(bytes([first]) + ser((GX, GY))[1:]).hex()]
        yield 'pub_bytes', [(bytes([first]) + ser((GX, GY), 'u')[1:]).hex()]
    small = next(x for x in range(1, 100) if lift(x, 0) is not None)
    sy = lift(small, 0)
    for x, y in ((GX, GY), (small, sy), (small, P - sy), (small + P, sy), (0, 0), (GX, P - GY), (GX, GY + 1), (P - 1, 1), (1 << 256, GY), (GX, 1 << 256), (GX + P, GY), (N, 5)):
        a, b = x.to_bytes(40, 'big').hex(), y.to_bytes(40, 'big').hex()
        for s, t in (('', ''), ('-', ''), ('', '-')):
            yield 'pub_point', [s, a, t, b]
        if x < 1 << 256 and y < 1 << 256:
            for first in (2, 3):
                yield 'pub_bytes', [(bytes([first]) + b32(x)).hex()]
            for first in (4, 6, 7):
                yield 'pub_bytes', [(bytes([first]) + b32(x) + b32(y)).hex()]
    for _ in range(30 * n):
        d, e = secret(rng), secret(rng)
        for x, y in ((d, d), (d, e), (d, N - d)):
            yield 'priv_same', [hx(x), rng.random() < .5, hx(y), rng.random() < .5]


def in23(rng, thorough):
    names = list(COINS)
    wide = ['', '00', 'ff' * 31, '00' * 33, '00' * 32 + '01', '01' * 64]
    for _ in range(12000 if thorough else 2000):
        ks, sec, isp = [], [], []
        for _ in range(rng.randrange(1, 4)):
            s = secret(rng)
            if rng.random() < .7:
                ks.append(['priv', hx(s), rng.random() < .5, rng.choice(names)] if rng.random() < .7 else
                          ['xprv', hx(s), rng.randbytes(32).hex(), rng.choice(XNAMES)])
                isp.append(True)
            elif rng.random() < .3:
                ks.append(['xpub', ser(mul(s)).hex(), rng.randbytes(32).hex(), rng.choice(XNAMES)])
                isp.append(False)
            else:
                ks.append(['pub', ser(mul(s), rng.choice('cuh')).hex(), rng.choice(names)])
                isp.append(False)
            sec.append(s)
        steps = []
        for _ in range(rng.randrange(1, 8)):
            k = rng.randrange(len(sec))
            s, p = sec[k], isp[k]
            pubs = [j for j in range(len(sec)) if not isp[j]]
            kind = rng.choice(['pub', 'comp', 'add', 'add', 'mul', 'mul', 'comb', 'comb', 'ecdh', 'share', 'bad'])
            r = None
            if kind in ('pub', 'comp'):
                r = s
                steps.append([kind, k + 1])
                p = False if kind == 'pub' else p
            elif kind == 'add':
                v = rng.choice([0, 1, N - s, N - s - 1, N - s + 1, N - 1, s, N, N + 1, (1 << 256) - 1, rng.randrange(N), rng.randrange(N), sec[0]])
                v = v % (1 << 256)
                r = (s + v) % N if v < N and (s + v) % N else None
                steps.append(['add', k + 1, hx(v)])
            elif kind == 'mul':
                v = rng.choice([0, 1, 2, N - 1, N - 2, pow(s, -1, N), N, N + 1, (1 << 256) - 1, rng.randrange(N), rng.randrange(1, N), 1 << 255])
                r = s * v % N if 0 < v < N else None
                steps.append(['mul', k + 1, hx(v)])
            elif kind == 'comb':
                if not pubs:
                    continue
                js = [rng.choice(pubs) for _ in range(rng.choice((1, 1, 2, 2, 2, 3, 4, rng.randrange(1, 21))))]
                k = js[0]
                s, p = sec[k], False
                r = sum(sec[j] for j in js) % N or None
                steps.append(['comb', k + 1, [j + 1 for j in js]])
            elif kind in ('ecdh', 'share'):
                if not p or not pubs:
                    continue
                j = rng.choice(pubs)
                p = False
                if kind == 'ecdh':
                    r = s * sec[j] % N
                    steps.append(['ecdh', k + 1, j + 1])
                else:
                    h = rng.choice([['default', ''], ['sha256', ''], ['double', ''], ['none', ''], ['none', ''], ['const', hx(N - s)], ['const', hx(N - sec[j])],
                                    ['const', hx(rng.choice(OUT + [N - 1]))]])
                    m = rng.randbytes(rng.choice((32, 32, rng.randrange(100), rng.randrange(1000))))
                    if h[0] == 'none' and rng.random() < .8:
                        m = b32(rng.choice([0, 1, N - 1, N, N - s, N - sec[j], rng.randrange(N)]))
                    b = {'default': sha(m), 'sha256': sha(m), 'double': sha(sha(m)), 'none': m, 'const': fromhex(h[1])}[h[0]]
                    v = int.from_bytes(b, 'big')
                    x, y = (s + v) % N, (sec[j] + v) % N
                    r = x * y % N if len(b) == 32 and v < N and x and y else None
                    steps.append(['share', k + 1, j + 1, m.hex(), h])
                if r is None:
                    p = True      # a copy of the operand
            else:
                steps.append([rng.choice(('badadd', 'badmul')), k + 1, rng.choice(wide)])
            sec.append(s if r is None else r)
            isp.append(p)
        # a key and its negative meet
        if rng.random() < .4 and any(not x for x in isp):
            k = rng.choice([j for j in range(len(sec)) if not isp[j]])
            steps.append(['mul', k + 1, hx(N - 1)])
            m = len(sec) + 1
            tail = rng.choice([[k + 1, m], [m, k + 1], [k + 1, m, k + 1], [m, m, k + 1], [k + 1, k + 1], [k + 1, m, m, k + 1]])
            steps.append(['comb', tail[0], tail])
        yield 'arith', [ks, steps]
    # a few keys, each asked for much
    for _ in range(150 if thorough else 25):
        ss = [secret(rng) for _ in range(4)]
        ks = [['priv', hx(s), rng.random() < .5, rng.choice(names)] if rng.random() < .7 else ['xprv', hx(s), rng.randbytes(32).hex(), rng.choice(XNAMES)] for s in ss[:2]] + \
             [['pub', ser(mul(s), rng.choice('cu')).hex(), rng.choice(names)] if rng.random() < .7 else
              ['xpub', ser(mul(s)).hex(), rng.randbytes(32).hex(), rng.choice(XNAMES)] for s in ss[2:]]
        ms = [rng.randbytes(32).hex() for _ in range(2)]
        steps = [['share', i, j, m, h] for i in (1, 2) for j in (3, 4) for m in ms for h in (['default', ''], ['double', ''], ['none', ''])]
        steps += [['ecdh', i, j] for i in (1, 2) for j in (3, 4)]
        steps += [[f, i, hx(v)] for f in ('add', 'mul') for i in (1, 2, 3, 4) for v in (ss[0], ss[1], 2)]
        steps += [['comb', a, [a, b]] for a in (3, 4) for b in (3, 4)] + [['comp', i] for i in (1, 2, 3, 4)]
        rng.shuffle(steps)
        yield 'arith', [ks, steps[:rng.randrange(10, 30)]]
    d = hx(secret(rng))
    for what in ('priv', 'pub'):
        for f in ('add', 'mul'):
            for t in ('none', 'str', 'int', 'list'):
                yield 'arith_bad', [d, what, t, 'TypeError', f]
            for t in ('b31', 'b33', 'b0', 'b64'):
                yield 'arith_bad', [d, what, t, 'ValueError', f]


def in24(rng, thorough):
    n = 8 if thorough else 1
    edge = [bytes(32), b32(1), b32(N), b32(N + 1), b32(N - 1), b'\xff' * 32, b32(P)]
    # signing
    for _ in range(150 * n):
        d = secret(rng)
        yield 'sign', [hx(d), rng.randbytes(rng.randrange(80)).hex(), rng.choice(HASHERS[:3] + HASHERS)]
        yield 'sign', [hx(d), rng.choice(edge).hex(), ['none', '']]
        yield 'sign_msg', [hx(d), rng.random() < .5, msg(rng), rng.choice(HASHERS[:4] + HASHERS)]
    for length in range(0, 70):
        yield 'sign', [hx(secret(rng)), rng.randbytes(length).hex(), ['none', '']]
    for length in [rng.randrange(80, 600) for _ in range(20 * n)] + [127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4096, 65535, 65536, 70000]:
        d, m = secret(rng), rng.randbytes(length)
        yield 'sign', [hx(d), m.hex(), rng.choice(HASHERS[:3])]
        yield 'sign_msg', [hx(d), rng.random() < .5, ['b', m.hex()], ['default', '']]
        r, s, i = ecdsa(d, sha(m), rng.randrange(1, N))
        yield 'recover', [(b32(r) + b32(s) + bytes([i])).hex(), m.hex(), ['default', '']]
    for m in (['s', 'x' * 252], ['s', 'x' * 253], ['s', '\xe9' * 126], ['s', '\xe9' * 127], ['b', '00' * 65535], ['b', '00' * 65536]):
        yield 'sign_msg', [hx(secret(rng)), True, m, ['default', '']]
    # signatures of some keys and messages in all combinations, good and not
    for _ in range(30 * n):
        ds = [secret(rng) for _ in range(2)]
        pts = [mul(d) for d in ds]
        ms = [rng.randbytes(rng.randrange(50)) for _ in range(2)]
        hs = [['default', ''], rng.choice([['double', ''], ['sha256', '']]), ['none', '']]
        sigs = []
        for d in ds:
            for m in ms[:1] + [rng.choice(edge)]:
                h = m if m in edge else sha(m)
                r, s, i = ecdsa(d, h, rng.randrange(1, N), rng.random() < .25)
                sigs.append((r, s, i))
        variants = []
        for r, s, i in sigs:
            variants += [(r, s, i), (r, N - s, i ^ 1), (r, N - s, i)]
            variants += [rng.choice([(r, s, j) for j in (0, 1, 2, 3, 4, 255)] + [(s, r, i), (r ^ 1, s, i), (r, s ^ 1, i), (0, s, i), (r, 0, i), (N, s, i), (r, N, i), (N - r, s, i),
                                     (0, 0, i), (1, 1, i), (r, s, i ^ 1)])]
        for r, s, i in variants:
            for m, h in [(rng.choice(ms), rng.choice(hs[:2])), (ms[0], hs[0]), (rng.choice(edge), hs[2])]:
                q = rng.choice(pts)
                if r < 1 << 256 and s < 1 << 256:
                    raw = b32(r) + b32(s) + bytes([i])
                    yield 'verify_rec', [ser(q, rng.choice('cuh')).hex(), raw.hex(), m.hex(), h]
                    yield 'recover', [raw.hex(), m.hex(), h]
                yield 'verify_der', [ser(q, rng.choice('cuh')).hex(), der(r, s).hex(), m.hex(), h]
        r, s, i = sigs[0]
        good = b32(r) + b32(s) + bytes([i])
        for h in HASHERS:
            m = ms[0]
            yield 'verify_der', [ser(pts[0]).hex(), der(r, s).hex(), m.hex(), h]
            yield 'verify_rec', [ser(pts[0]).hex(), good.hex(), m.hex(), h]
            yield 'recover', [good.hex(), m.hex(), h]
        for _ in range(6):
            yield 'verify_der', [ser(pts[0]).hex(), damage(rng, der(r, s)).hex(), ms[0].hex(), hs[0]]
            bad = damage(rng, good).hex()
            yield 'verify_rec', [ser(pts[0]).hex(), bad, ms[0].hex(), hs[0]]
            yield 'recover', [bad, ms[0].hex(), hs[0]]
    # a few keys, messages and hashers in all combinations: what was answered for one is no answer for another
    for _ in range(n):
        ds = [secret(rng) for _ in range(2)]
        qs = [ser(mul(d)).hex() for d in ds]
        ms = [rng.randbytes(32) for _ in range(2)]
        hs = [['default', ''], ['double', ''], ['none', '']]
        sigs, msigs = [], []
        for d in ds:
            for m in ms:
                for h, f in zip(hs, (sha, lambda x: sha(sha(x)), bytes)):
                    yield 'sign', [hx(d), m.hex(), h]
                    sigs.append(ecdsa(d, f(m), rng.randrange(1, N)))
                for c in (True, False):
                    for h in hs[:2] + [['sha256', '']]:
                        yield 'sign_msg', [hx(d), c, ['b', m.hex()], h]
                msigs.append(given_forms(rng, d, ['b', m.hex()])[2][0])
        for r, s, i in sigs:
            for m in ms:
                for h in hs:
                    for q in qs:
                        yield 'verify_der', [q, der(r, s).hex(), m.hex(), h]
                        yield 'verify_rec', [q, (b32(r) + b32(s) + bytes([i])).hex(), m.hex(), h]
                    yield 'recover', [(b32(r) + b32(s) + bytes([i])).hex(), m.hex(), h]
        for x in msigs:
            for m in ms:
                for h in hs[:2] + [['sha256', '']]:
                    yield 'from_msg', [x, ['b', m.hex()], h]
                    for q in qs:
                        yield 'verify_msg', [q, x, ['b', m.hex()], h]
                        for f in ('text', 'obj'):
                            h160 = hashlib.new('ripemd160', sha(fromhex(q))).digest()
                            yield 'verify_addr', [x, ['b', m.hex()], ['text', b58c(b'\0' + h160)] if f == 'text' else ['obj', h160.hex(), 'Bitcoin'], h]
    # r and s chosen, the key recovered: r small enough for the ids 2 and 3, no key at all
    for _ in range(20 * n):
        for r in (rng.randrange(1, 1 << 127), rng.randrange(1, P - N), P - N, P - N - 1, P - N + 1, rng.randrange(1, N), 1, 2, 3, N - 1):
            for i in range(4):
                h = rng.choice(edge + [rng.randbytes(32)])
                yield 'recover', [(b32(r) + b32(rng.choice((1, rng.randrange(1, N), N // 2, N // 2 + 1))) + bytes([i])).hex(), h.hex(), ['none', '']]
        # the recovered key would be the point at infinity: s R = z G
        k = rng.randrange(1, N)
        pt = mul(k)
        if pt[0] < N:
            s = rng.randrange(1, N)
            yield 'recover', [(b32(pt[0]) + b32(s) + bytes([pt[1] % 2])).hex(), hx(s * k % N), ['none', '']]
            yield 'recover', [(b32(pt[0]) + b32(s) + bytes([1 - pt[1] % 2])).hex(), hx(s * k % N), ['none', '']]
    # signed messages
    for _ in range(60 * n):
        ds = [secret(rng) for _ in range(2)]
        pts = [mul(d) for d in ds]
        m1, m2 = msg(rng), msg(rng)
        good, i, forms = given_forms(rng, ds[0], m1)
        hsh = ser(pts[0])
        addr = []
        for q in pts:
            for f in 'cu':
                h160 = hashlib.new('ripemd160', sha(ser(q, f))).digest()
                for ver in (0, 111, 5, 196, 77):
                    addr.append(['text', b58c(bytes([ver]) + h160)])
                addr.append(['obj', h160.hex(), rng.choice(list(COINS))])
                addr.append(['text', b58c(bytes([0]) + h160 + b'\0')])
                addr.append(['text', b58c(h160)])
        addr += [['text', addr[0][1][:-1]], ['text', ''], ['text', b58c(b'')], ['text', b58c(b'\0')], ['other', 'none'], ['other', 'bytes'], ['other', 'int'],
                 *(['other', k, ser(q, 'cu'[j % 2]).hex()] for q in pts for j, k in enumerate(('key', 'p2sh', 'p2pk', 'hash', 'script', 'text bytes', 'multi', 'coin', 'p2sh'))),
                 ['obj', '00' * 20, 'Bitcoin']]
        for x in forms:
            m, h = rng.choice([(m1, ['default', '']), (m1, ['double', '']), (m1, ['default', '']), (m2, ['default', '']), (m1, rng.choice(HASHERS))])
            yield 'from_msg', [x, m, h]
            yield 'verify_msg', [ser(rng.choice(pts), rng.choice('cu')).hex(), x, m, h]
            yield 'verify_addr', [x, m, rng.choice(addr), h]
        for ad in addr:
            yield 'verify_addr', [forms[rng.randrange(4)], m1, ad, ['default', '']]
        for h in HASHERS:
            yield 'verify_addr', [forms[0], m1, addr[0], h]
            yield 'from_msg', [forms[0], m1, h]
            yield 'verify_msg', [ser(pts[0]).hex(), forms[0], m1, h]
    # no hasher, although the message with what comes before it may have the length of a hash
    for length in range(12):
        d = secret(rng)
        b = rng.randbytes(length)
        for m in (['b', b.hex()], ['s', 'abcdefghijkl'[:length]]):
            full32 = b'\x18Bitcoin Signed Message:\n' + bytes([length]) + (b if m[0] == 'b' else m[1].encode())
            r, s, i = ecdsa(d, full32, rng.randrange(1, N)) if len(full32) == 32 else (5, 6, 0)
            sg = ['b', (bytes([31 + i]) + b32(r) + b32(s)).hex()]
            ad = ['text', b58c(b'\0' + hashlib.new('ripemd160', sha(ser(mul(d)))).digest())]
            yield 'sign_msg', [hx(d), True, m, ['none', '']]
            yield 'from_msg', [sg, m, ['none', '']]
            yield 'verify_msg', [ser(mul(d)).hex(), sg, m, ['none', '']]
            yield 'verify_addr', [sg, m, ad, ['none', '']]


def in25(rng, thorough):
    import pyaes
    n = 6 if thorough else 1

    def cbc_enc(key, iv, data):
        c = pyaes.AESModeOfOperationCBC(key, iv=iv)
        return b''.join(c.encrypt(data[k:k + 16]) for k in range(0, len(data), 16))

    def seal(d, m, magic=b'BIE1', padded=None, eph=None, extra=b'', hdr=None):
        e = eph or rng.randrange(1, N)
        shared = mul(d * e % N)
        key = hashlib.sha512(ser(shared)).digest()
        pad = 16 - len(m) % 16
        plain = m + bytes([pad]) * pad if padded is None else padded
        whole = plain[:len(plain) // 16 * 16]
        body = magic + (hdr or ser(mul(e))) + cbc_enc(key[16:32], key[:16], whole) + plain[len(whole):] + extra
        return body + _digest(key[32:], body, 'sha256')
    magics = [b'BIE1', b'BIE1', b'BIE2', b'', b'x', b'longer magic than usual', b'\0\xff']
    for length in list(range(0, 50)) + [63, 64, 65, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 65536] + [rng.randrange(50, 3000) for _ in range(10 * n)]:
        yield 'encrypt', [hx(secret(rng)), rng.random() < .5, rng.choice(magics).hex(), ['b', rng.randbytes(length).hex()]]
        m = rng.randbytes(length)
        d = secret(rng)
        yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, m).hex()]]
        yield 'decrypt', [hx(d), b'BIE1'.hex(), ['s', base64.b64encode(seal(d, m)).decode()]]
    for t in ('', 'a', 'cafe\u0301', '\u212b\ufb01', ' a\r\n', '\ufeffa', 'h\xe9llo', '\u65e5\u672c' * 9, '\U0001f600', '\0' * 16, '\x10' * 16, '\x01', '\x02\x02'):
        yield 'encrypt', [hx(secret(rng)), True, b'BIE1'.hex(), ['s', t]]
    for length in [rng.randrange(20, 1500) for _ in range(10 * n)]:
        yield 'encrypt', [hx(secret(rng)), rng.random() < .5, b'BIE1'.hex(), ['s', ''.join(rng.choice('ab \n\xe9\u65e5\U0001f600') for _ in range(length))]]
    for last in (bytes([k]) * k for k in range(1, 18)):
        yield 'encrypt', [hx(secret(rng)), False, b'BIE1'.hex(), ['b', (b'ab' + last).hex()]]
        d = secret(rng)
        yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'ab' + last).hex()]]
    # a few keys, messages and magics in all combinations
    ds, ms = [secret(rng) for _ in range(2)], [rng.randbytes(20) for _ in range(2)]
    for d in ds:
        for m in ms:
            for magic in (b'BIE1', b'BIE2', b'x'):
                for c in (True, False):
                    yield 'encrypt', [hx(d), c, magic.hex(), ['b', m.hex()]]
                sealed = seal(d, m, magic).hex()
                for o in ds:
                    for other in (b'BIE1', b'BIE2', b'x'):
                        yield 'decrypt', [hx(o), other.hex(), ['b', sealed]]
    # every byte changed, cut at every place, extended
    for length in (0, 20) if not thorough else (0, 1, 15, 16, 17, 40):
        d = secret(rng)
        for magic in (b'BIE1', b'xy'):
            c = seal(d, rng.randbytes(length), magic)
            for k in range(len(c)):
                for x in {1 << rng.randrange(8), 255, rng.randrange(1, 256), 128, 1}:
                    yield 'decrypt', [hx(d), magic.hex(), ['b', (c[:k] + bytes([c[k] ^ x]) + c[k + 1:]).hex()]]
                yield 'decrypt', [hx(d), magic.hex(), ['b', c[:k].hex()]]
                yield 'decrypt', [hx(d), magic.hex(), ['b', (c[:k] + c[k + 1:]).hex()]]
                yield 'decrypt', [hx(d), magic.hex(), ['b', c[k:].hex()]]
                yield 'decrypt', [hx(d), magic.hex(), ['b', (c[:k] + b'\0' + c[k:]).hex()]]
            for x in (b'\0', b'\1', bytes(16), bytes(32), c, c[-32:]):
                yield 'decrypt', [hx(d), magic.hex(), ['b', (c + x).hex()]]
                yield 'decrypt', [hx(d), magic.hex(), ['b', (x + c).hex()]]
            for other in (b'BIE1', b'xy', b'BIE', b'BIE2', b'bie1', b'', b'x', b'xyz', magic + c[len(magic):len(magic) + 1]):
                yield 'decrypt', [hx(d), other.hex(), ['b', c.hex()]]
            for o in (1, N - d, d + 1 if d + 1 < N else 1, secret(rng), N - 1):
                yield 'decrypt', [hx(o), magic.hex(), ['b', c.hex()]]
            t = base64.b64encode(c).decode()
            for k in range(0, len(t), 3):
                for ch in ('A', '=', ' ', '\n', '-', '\xe9', rng.choice(B58)):
                    yield 'decrypt', [hx(d), magic.hex(), ['s', t[:k] + ch + t[k + 1:]]]
                yield 'decrypt', [hx(d), magic.hex(), ['s', t[:k]]]
                yield 'decrypt', [hx(d), magic.hex(), ['s', t[:k] + '\n' + t[k:]]]
            for u in (t + '=', t + '\n', ' ' + t, t + 'AAAA', t + t, '', '=', c.hex(), t.rstrip('=')):
                yield 'decrypt', [hx(d), magic.hex(), ['s', u]]
    # authentic, but not what an encryption gives: padding, length, ephemeral key
    for _ in range(12 * n):
        d = secret(rng)
        for blocks in (1, 2):
            body = rng.randbytes(16 * blocks)
            for last in list(range(0, 20)) + [32, 128, 255]:
                p = body[:-1] + bytes([last])
                yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=p).hex()]]
                if 1 <= last <= 16:
                    q = bytearray(body[:-last] + bytes([last]) * last)
                    yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=bytes(q)).hex()]]
                    q[-rng.randrange(1, last + 1)] ^= 1 << rng.randrange(8)
                    yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=bytes(q)).hex()]]
                    q = bytearray(body[:-last] + bytes([last]) * last)
                    q[-last] ^= 1
                    yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=bytes(q)).hex()]]
            for extra in (1, 7, 15, 17):
                yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'abc', extra=rng.randbytes(extra)).hex()]]
        for length in (0, 1, 8, 15):
            yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=rng.randbytes(length)).hex()]]
        for size, last in ((32, 17), (32, 32), (48, 18), (48, 33), (48, 48), (272, 255), (16, 16), (32, 16), (32, 0)):   # the same byte throughout
            yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=bytes([last]) * size).hex()]]
            yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'', padded=rng.randbytes(16) + bytes([last]) * size).hex()]]
        e = rng.randrange(1, N)
        for hdr in (bytes(33), b'\2' + b32(P), b'\4' + b32(GX), b'\0' + b32(GX), b'\5' + ser(mul(e))[1:], ser(mul(e), 'h')[:33]):
            yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'hi', eph=e, hdr=hdr).hex()]]
        flipped = bytes([ser(mul(e))[0] ^ 1]) + ser(mul(e))[1:]
        yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'hi', eph=e, hdr=flipped).hex()]]
        u = ser(mul(e), 'u')
        yield 'decrypt', [hx(d), b'BIE1'.hex(), ['b', seal(d, b'hi', eph=e, hdr=u).hex()]]
    # the cipher itself
    ks, ivs, ms = ([rng.randbytes(size) for _ in range(4)] for size in (16, 16, 20))
    for key in ks:
        for iv in ivs:
            for m in ms:
                yield 'aes_enc', [key.hex(), iv.hex(), m.hex()]
                yield 'aes_dec', [key.hex(), iv.hex(), cbc_enc(ks[0], ivs[0], m[:16] + bytes([16]) * 16).hex()]
    for size in (16, 24, 32):
        for length in list(range(0, 50)) + [100]:
            key, iv = rng.randbytes(size), rng.randbytes(16)
            m = rng.randbytes(length)
            yield 'aes_enc', [key.hex(), iv.hex(), m.hex()]
            pad = 16 - length % 16
            for p in (m + bytes([pad]) * pad, m, m + bytes([pad]) * (pad - 1) + b'\0', m + bytes([pad ^ 1]) + bytes([pad]) * (pad - 1) if pad > 1 else m + b'\2',
                      m + bytes(pad - 1) + bytes([pad]), m + bytes(pad - 1) + bytes([rng.choice((0, 17, 255, 16))])):
                if len(p) % 16 == 0:
                    yield 'aes_dec', [key.hex(), iv.hex(), cbc_enc(key, iv, p).hex()]
            yield 'aes_dec', [key.hex(), iv.hex(), rng.randbytes(length).hex()]
        for length in (32, 48):
            for last in (0, 1, 16, 17, 31, 32, 33, 48):
                yield 'aes_dec', [key.hex(), iv.hex(), cbc_enc(key, iv, bytes([last]) * length).hex()]


def in26(rng, thorough):
    H = 1 << 31
    names = list(COINS)
    idx = [0, 1, 2, 44, H - 2, H - 1, H, H + 1, H + 2, 2 * H - 2, 2 * H - 1]
    bad = [-1, -H, 2 * H, 2 * H + 1, 1 << 40, 1 << 64]

    def I(v):
        a = abs(v)
        return ['-' if v < 0 else '', a.to_bytes((a.bit_length() + 7) // 8, 'big').hex()]

    def pick():
        c = rng.random()
        return rng.choice(idx) if c < .5 else rng.randrange(H) if c < .7 else rng.randrange(H, 2 * H) if c < .85 else rng.choice(bad)

    def steps(count, size=1, kinds=('child', 'child', 'safe', 'pub', 'parse'), pick=pick):
        res = []
        for _ in range(count):
            kind = rng.choice(kinds)
            k = rng.choice((size, rng.randrange(1, size + 1)))
            res.append([kind, k] + I(pick() if kind in ('child', 'safe') else 0))
            size += 1
        return res

    def xbytes(c, public, key=None, depth=None, fp=None, n=None, chain=None):
        ver = {'Bitcoin': ('0488b21e', '0488ade4')}.get(c, ('043587cf', '04358394'))[0 if public else 1]
        key = key if key is not None else ser(mul(secret(rng))) if public else b'\0' + b32(secret(rng))
        depth = rng.choice((0, 1, 3, 200)) if depth is None else depth
        return (fromhex(ver) + bytes([depth]) + (rng.randbytes(4) if fp is None else fp) + (n if n is not None else rng.choice(idx) if depth else 0).to_bytes(4, 'big')
                + (rng.randbytes(32) if chain is None else chain) + key)
    n = 8 if thorough else 1
    for _ in range(500 * n):
        root = ['seed', rng.randbytes(rng.choice((0, 1, 16, 32, 64, 64, 16, 32, 65, 128, 129, rng.randrange(200)))).hex(), rng.choice(names)]
        yield 'tree', [root, steps(rng.randrange(1, 7)), []]
        x = ['x', b58c(xbytes(rng.choice(('Bitcoin', 'T')), rng.random() < .5, depth=rng.choice((0, 1, 100, 247, 248))))]
        yield 'tree', [x, steps(rng.randrange(1, 7)), []]
    # every depth
    for depth in range(0, 250, 2):
        x = ['x', b58c(xbytes(rng.choice(('Bitcoin', 'T')), rng.random() < .5, depth=depth))]
        yield 'tree', [x, [['child', 1] + I(rng.randrange(1, 1000)), ['child', 2] + I(rng.randrange(1, 1000)), ['parse', 3] + I(0)], []]
    for v in idx + bad:
        for kind in ('child', 'safe'):
            for public in (True, False):
                yield 'tree', [['x', b58c(xbytes('Bitcoin', public))], [[kind, 1] + I(v), ['pub', 2] + I(0), ['pub', 1] + I(0), [kind, 4] + I(v)], []]
    # secrets with leading zeros, chain codes with zeros
    for s in EDGE + [rng.randrange(1, 1 << 100) for _ in range(20 * n)]:
        x = ['x', b58c(xbytes(rng.choice(('Bitcoin', 'T')), False, key=b'\0' + b32(s), chain=rng.choice((bytes(32), b'\xff' * 32, rng.randbytes(32)))))]
        yield 'tree', [x, steps(4), []]
    # random masters
    for _ in range(10 * n):
        data = b''.join(b32(rng.choice(OUT)) + rng.randbytes(32) for _ in range(rng.randrange(3))) + b32(secret(rng)) + rng.randbytes(32)
        yield 'tree', [['random', data.hex()], steps(3), []]
    # texts that are not extended keys
    wrong = []
    for public in (True, False):
        for c in ('Bitcoin', 'T'):
            b = xbytes(c, public)
            for k in (0, 1, 2, 3, 45):
                for x in (1, 128, rng.randrange(1, 256)):
                    wrong.append(b[:k] + bytes([b[k] ^ x]) + b[k + 1:])
            wrong += [b[:-1], b + b'\0', b[:45] + b[46:], b'', b[:4], b + b, b[:44] + b'\0' + b[44:], b[4:]]
            wrong += [fromhex('049d7cb2') + b[4:], fromhex('0488b21f') + b[4:]]
            other = {'Bitcoin': ('0488ade4', '0488b21e'), 'T': ('04358394', '043587cf')}[c][0 if public else 1]
            wrong.append(fromhex(other) + b[4:])
            for v in OUT:
                wrong.append(xbytes(c, False, key=b'\0' + b32(v)))
                wrong.append(xbytes(c, True, key=b'\2' + b32(v)))
                wrong.append(xbytes(c, True, key=b'\0' + b32(v)))
            wrong.append(xbytes(c, False, key=ser(mul(secret(rng)))))
            x = rng.randrange(P)
            while lift(x, 0) is not None:
                x += 1
            wrong.append(xbytes(c, True, key=b'\2' + b32(x)))
            for first in (1, 2, 3, 4, 5, 6, 7, 255):
                wrong.append(xbytes(c, False, key=bytes([first]) + b32(secret(rng))))
                wrong.append(xbytes(c, True, key=bytes([first]) + b32(GX)))
            for depth in (0, 1, 255):
                for fp in (bytes(4), rng.randbytes(4)):
                    for i in (0, 1, H, 2 * H - 1):
                        wrong.append(xbytes(c, public, depth=depth, fp=fp, n=i))
    for b in wrong:
        yield 'tree', [['x', b58c(b)], [], []]
    for _ in range(60 * n):
        t = b58c(xbytes(rng.choice(('Bitcoin', 'T')), rng.random() < .5))
        k = rng.randrange(len(t))
        for u in (t[:k] + rng.choice(B58) + t[k + 1:], t[:k] + t[k + 1:], t + rng.choice(B58), t[:k] + rng.choice('0OIl \n\xe9') + t[k + 1:]):
            yield 'tree', [['x', u], [], []]
        around = rng.choice((' ', '\n', '\t', '\r\n', '\0', '\u3000', '\ufeff', '"', ':', '1', 'm/'))
        for u in (around + t, t + around, around + t + around):
            yield 'tree', [['x', u], [], []]
    for t in ('', 'xprv', 'xpub', ' ', 'm/0', '1' * 78, '\xe9'):
        yield 'tree', [['x', t], [], []]

    # children that do not exist
    def last(v):
        return (v % (2 * H)).to_bytes(4, 'big').hex()
    for _ in range(60 * n):
        s = secret(rng)
        public = rng.random() < .4
        chain = rng.randbytes(32)
        key = ser(mul(s)) if public else b'\0' + b32(s)
        b = xbytes(rng.choice(('Bitcoin', 'T')), public, key=key, chain=chain)
        at = rng.choice((0, 5, H - 1, H - 2, H, H + 7, 2 * H - 1, 2 * H - 2, rng.randrange(2 * H)))
        if public:
            at %= H
        f = []
        for j in range(rng.choice((1, 1, 2, 3))):
            l = rng.choice((N - s, N, N + 1, (1 << 256) - 1, N - s, 0, 1, N - s - 1, N - s + 1 if s > 1 else N))
            l %= 1 << 256
            f.append([chain.hex(), last(at + j), (b32(l) + rng.randbytes(32)).hex()])
        st = [['child', 1] + I(at), ['safe', 1] + I(at), ['pub', 1] + I(0), ['child', 4] + I(at), ['safe', 4] + I(at), ['child', 3] + I(1), ['child', 6] + I(1)]
        for j in range(3):
            st.append(['safe', 1] + I(at + j))
            st.append(['child', 1] + I(at - j))
            st.append(['safe', 4] + I(at - j))
        yield 'tree', [['x', b58c(b)], st, f]
        # deeper in the tree
        f = [['*', last(at + j), (b32(rng.choice((N, N + 1, (1 << 256) - 1, 0, 1))) + rng.randbytes(32)).hex()] for j in range(rng.randrange(1, 3))]
        near = lambda: max(0, min(2 * H - 1, at + rng.randrange(-2, 3)))
        yield 'tree', [['x', b58c(b)], steps(6, pick=near), f]
        yield 'tree', [['seed', rng.randbytes(16).hex(), rng.choice(names)], steps(6, pick=near), f]
    for v in OUT + [1, N - 1]:
        seed = rng.randbytes(16)
        yield 'tree', [['seed', seed.hex(), 'Bitcoin'], [], [[b'Bitcoin seed'.hex(), seed[-4:].hex(), (b32(v) + rng.randbytes(32)).hex()]]]


if __name__ == '__main__':
    cfg, out = load()
    gen = {'C21': in21, 'C22': in22, 'C23': in23, 'C24': in24, 'C25': in25, 'C26': in26}[cfg['pid']]
    cases = list(gen(cfg['rng'], cfg['thorough']))
    if PARAMS.get('aes') == 'pyaes':
        cases = cases[::3]
    run(cases, out, cfg['rng'])
