"""C19 base58, C20 addresses, C27 derivation paths."""
import hashlib
from lib import *
import bitcoinx as bx
from bitcoinx import cashaddr
from bitcoinx.base58 import Base58Error, is_minikey

COINS = {'Bitcoin': bx.Bitcoin, 'BitcoinTestnet': bx.BitcoinTestnet, 'BitcoinScalingTestnet': bx.BitcoinScalingTestnet,
         'BitcoinRegtest': bx.BitcoinRegtest}
NAMES = {id(c): n for n, c in COINS.items()}
fromhex = bytes.fromhex
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def sha(b):
    return hashlib.sha256(b).digest()


def b58e(b):
    n, s = int.from_bytes(b, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58c(b):
    return b58e(b + sha(sha(b))[:4])


def symbols(octets):
    bits = ''.join(f'{x:08b}' for x in octets)
    bits += '0' * (-len(bits) % 5)
    return [int(bits[k:k + 5], 2) for k in range(0, len(bits), 5)]


def polymod(vals):
    c = 1
    for d in vals:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for k, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)):
            if c0 >> k & 1:
                c ^= g
    return c ^ 1


def cash_text(prefix, sym, const=0):
    """Cashaddr text of any symbols, with a good checksum (or one off by `const`)."""
    c = polymod([ord(x) & 31 for x in prefix] + [0] + sym + [0] * 8) ^ const
    return prefix + ':' + ''.join(CHARSET[x] for x in sym + [c >> 5 * (7 - k) & 31 for k in range(8)])


def cash_of(prefix, kind, h, version=None):
    size = [20, 24, 28, 32, 40, 48, 56, 64].index(len(h)) if version is None else 0
    return cash_text(prefix, symbols(bytes([kind * 8 + size if version is None else version]) + h))


@op
def b58(a):
    b = fromhex(a[0])
    t = bx.base58_encode(b)
    return '[' + enc(t) + ',' + outcome(lambda: bytes(bx.base58_decode(t)), Base58Error) + ']'


@op
def b58d(a):
    return outcome(lambda: [bytes(bx.base58_decode(a[0])), bx.base58_encode(bx.base58_decode(a[0])) == a[0]], Base58Error)


@op
def _b58c(a):
    b = fromhex(a[0])
    t = bx.base58_encode_check(b)
    return enc([t, bytes(bx.base58_decode_check(t))])


@op
def b58dc(a):
    return outcome(lambda: bytes(bx.base58_decode_check(a[0])), Base58Error)


@op
def minikey(a):
    return enc(is_minikey(a[0]))


@op
def cash(a):
    return outcome(lambda: cashaddr.decode(a[0]), ValueError)


@op
def address(a):
    coin = COINS[a[1]]

    def f():
        x = bx.Address.from_string(a[0], coin)
        again = bx.Address.from_string(x.to_string(), coin)
        return [type(x).__name__, x.hash160(), x.to_string(), str(x), NAMES[id(x.coin())], again == x and not again != x,
                hash(again) == hash(x), bx.P2PKH_Address(x.hash160(), coin) == x]
    return outcome(f, ValueError)


@op
def addresses(a):
    coin = COINS[a[2]]

    def f():
        x, y = (bx.Address.from_string(t, coin) for t in a[:2])
        return [x == y, x != y, True if len({x, y}) == 1 else None]
    return outcome(f, ValueError)


@op
def path(a):
    return ('[' + outcome(lambda: again(lambda: bx.bip32_decompose_chain_string(a[0])), ValueError) + ','
            + enc(bx.bip32_is_valid_chain_string(a[0])) + ']')


@op
def path_bad(a):
    x = {'bytes': b'm/1', 'none': None, 'int': 5, 'list': ['m', '1'], 'bytearray': bytearray(b'm'), 'tuple': ('m',)}[a[0]]
    return outcome(lambda: bx.bip32_decompose_chain_string(x), TypeError, ValueError)


def element(x):
    if x[0] == 'i':
        if x[1] == 'bool':
            return x[2] == '01'
        v = int.from_bytes(fromhex(x[2]), 'big')
        return -v if x[1] == '-' else v
    return {'str': '1', 'none': None, 'float': 1.0, 'bytes': b'\1', 'list': [1]}[x[0]]


@op
def path_build(a):
    xs = [element(x) for x in a[0]]
    shape = a[1]

    def f():
        before = list(xs)
        src = xs if shape == 'list' else tuple(xs) if shape == 'tuple' else iter(xs)
        t = bx.bip32_build_chain_string(src)
        must([(type(x), x) for x in xs] == [(type(x), x) for x in before])
        if shape == 'list' and again(lambda: bx.bip32_validate_derivation(tuple(xs))) != xs or bx.bip32_validate_derivation(iter(xs)) != xs:
            return 'validate_derivation differs'
        return [t, again(lambda: bx.bip32_decompose_chain_string(t))]
    return outcome(f, TypeError, ValueError)


# ------------------------------------------------------------------ inputs

def mutate(rng, t, alphabet):
    k = rng.randrange(len(t) + 1)
    how = rng.randrange(6)
    if how == 0:
        return t[:k] + rng.choice(alphabet) + t[k:]
    if how == 1:
        return t[:k] + t[k + 1:]
    if how == 2:
        return t[:k] + rng.choice(alphabet) + t[k + 1:]
    if how == 3 and k + 1 < len(t):
        return t[:k] + t[k + 1] + t[k] + t[k + 2:]
    if how == 4 and k < len(t):
        return t[:k] + t[k].swapcase() + t[k + 1:]
    j = rng.randrange(len(t) + 1)
    return t[:min(j, k)] + t[max(j, k):]


ODD = '0OIl !"-_/+:;=@[`{~\x00\t\n\r\x7f\x80\xe9\u0130\u0131\u212a\uff11\u0661\u2028\U0001f600'


def texts_c19(rng, thorough):
    n = 12 if thorough else 3
    for length in list(range(0, 41)) + [50, 58, 64, 73, 82, 100, 128, 200]:
        for lead in {0, 1, 2, length // 2, length}:
            if lead <= length:
                for fill in [bytes([1]) * (length - lead), bytes([255]) * (length - lead), rng.randbytes(length - lead)]:
                    b = bytes(lead) + fill
                    yield 'b58', [b.hex()]
                    yield 'b58c', [b.hex()]
    for _ in range(150 * n):
        b = bytes(rng.randrange(4) if rng.random() < .3 else 0) + rng.randbytes(rng.randrange(40))
        yield 'b58', [b.hex()]
        t = b58c(b)
        yield 'b58dc', [t]
        yield 'b58dc', [b58e(b)]
        yield 'b58dc', [mutate(rng, t, B58 + ODD)]
        yield 'b58dc', [mutate(rng, mutate(rng, t, B58), B58)]
        yield 'b58d', [mutate(rng, t, B58)]
        yield 'b58d', [mutate(rng, t, B58 + ODD)]
    for p in range(5):
        for k in range(p):
            yield 'b58dc', [b58e(sha(sha(b''))[:p])]
            yield 'b58dc', [b58e(rng.randbytes(p))]
    # checksums of other lengths, of another hash, at the wrong end
    for _ in range(20 * n):
        b = rng.randbytes(rng.randrange(1, 40))
        for chk in [sha(b)[:4], sha(sha(b))[:3], sha(sha(b))[:5], sha(sha(b))[-4:], sha(sha(b))[:4][::-1], sha(sha(b))[1:5]]:
            yield 'b58dc', [b58e(b + chk)]
        yield 'b58dc', [b58e(sha(sha(b))[:4] + b)]
        c = bytearray(sha(sha(b))[:4])
        c[rng.randrange(4)] ^= 1 << rng.randrange(8)
        yield 'b58dc', [b58e(b + bytes(c))]
    for length in range(0, 9):
        for _ in range(2 * n):
            t = ''.join(rng.choice(B58) for _ in range(length))
            yield 'b58d', [t]
            yield 'b58d', ['1' * rng.randrange(4) + t]
            yield 'b58d', [t + '1' * rng.randrange(4)]
            yield 'b58dc', [t]
    for t in B58:
        for k in (0, 1, 3):
            yield 'b58d', ['1' * k + t]
            yield 'b58d', [t * (k + 2)]
    for c in ODD + ''.join(map(chr, range(128))):
        for t in (c, 'a' + c, c + 'a', '1' + c, c + '1', '1' * 3 + c + 'z'):
            yield 'b58d', [t]
            yield 'b58dc', [t]
    for k in range(0, 64):
        yield 'b58d', ['1' * k]
        yield 'b58d', ['1' * k + 'z' * rng.randrange(70)]
    # runs of one digit or one octet, at every alignment
    def runs(pick, longest, total):
        out = []
        while len(out) < total:
            out += [pick()] * (rng.randrange(1, longest) if rng.random() < .7 else 1)
        return out[:total]
    for total in list(range(2, 45)) + [60, 87, 112]:
        for _ in range(n + 2):
            t = ''.join(runs(lambda: rng.choice('11zz2' + B58), 14, total))
            yield 'b58d', [t]
            v = 0
            for c in t:
                v = v * 58 + B58.index(c)
            yield 'b58', [(bytes(rng.randrange(2)) + v.to_bytes((v.bit_length() + 7) // 8, 'big')).hex()]
            b = bytes(runs(lambda: rng.choice((0, 0, 255, 1, 128, rng.randrange(256))), 12, total))
            yield 'b58', [b.hex()]
            yield 'b58c', [b.hex()]
            yield 'b58d', [b58e(b)]
            yield 'b58dc', [b58c(b)]
    for k in range(1, 46):
        for v in (58 ** k - 1, 58 ** k, 58 ** k + 1, rng.randrange(1, 58) * 58 ** k + rng.randrange(58), 58 ** k + 58 ** (k // 2), 1 << 8 * k, (1 << 8 * k) - 1,
                  rng.randrange(58 ** k) * 58 ** rng.randrange(1, 12)):
            b = v.to_bytes((v.bit_length() + 7) // 8, 'big')
            yield 'b58', [b.hex()]
            yield 'b58d', [b58e(b)]
    # minikeys
    def mini(length, first='S', want=0):
        while True:
            t = first + ''.join(rng.choice(B58) for _ in range(length - 1))
            if (sha((t + '?').encode())[0] == 0) == (want == 0):
                return t
    for length in list(range(20, 33)):
        for first in ('S', 'S', 's', '5', 'T', 'R'):
            yield 'minikey', [mini(length, first)]
            yield 'minikey', [mini(length, first, 1)]
    for _ in range(15 * n):
        for length in (22, 30):
            t = mini(length)
            yield 'minikey', [t]
            yield 'minikey', [t + '?']
            yield 'minikey', [mutate(rng, t, B58 + ODD)]
            k = rng.randrange(1, length)
            for c in '0OIl?\xe9\uff11':     # otherwise good, but for one character
                while True:
                    u = t[:k] + c + ''.join(rng.choice(B58) for _ in range(length - k - 1))
                    if length - k < 4 or sha((u + '?').encode())[0] == 0:
                        break
                yield 'minikey', [u]
    for t in ('', 'S', 'S' * 22, 'S' * 30):
        yield 'minikey', [t]


def texts_c20(rng, thorough):
    n = 10 if thorough else 3
    hashes = [bytes(20), b'\xff' * 20, bytes(range(20)), b'\0' * 19 + b'\1', b'\1' + bytes(19)] + [rng.randbytes(20) for _ in range(3 * n)]
    prefix = {c: COINS[c].cashaddr_prefix for c in COINS}
    good = []
    for h in hashes:
        for name, coin in COINS.items():
            for kind, ver in ((0, coin.P2PKH_verbyte), (1, coin.P2SH_verbyte)):
                t = b58c(bytes([ver]) + h)
                u = cash_of('bitcoincash' if name == 'Bitcoin' else 'bchtest', kind, h)
                bare = u.split(':')[1]
                forms = [t, u, bare, u.upper(), bare.upper(), u.capitalize(), u.split(':')[0] + ':' + bare.upper(),
                         u.split(':')[0].upper() + ':' + bare, ':' + bare, u + ':', 'x' + u, u + 'q', ' ' + t, t + ' ', t + '\n', u + '\n', u.replace(':', ''),
                         t.lower(), t.upper(), t[:-1], u[:-1], '1' + t, t[1:], bare[:-1] + bare[-1].upper()]
                for f in forms:
                    for other in COINS:
                        yield 'address', [f, other]
                    yield 'cash', [f]
                good.append((t, u, name))
                for other in ([t, u, bare, u.upper()]):
                    x, y, m = rng.choice(good)
                    yield 'addresses', [other, rng.choice((x, y)), m]
                    yield 'addresses', [other, t, name]
    # every single character changed
    picks = [good[k] for k in (0, 1, 2, 3, 4, 5, 6, 7)] + good[-8:] + rng.sample(good, 2 * n)
    for t, u, name in picks:
        bare = u.split(':')[1]
        for form, alphabet, m in ((t, B58, 2), (u, CHARSET + 'abio1', 3), (bare, CHARSET, 1), (bare.upper(), CHARSET.upper(), 1)):
            for k in range(len(form)):
                for c in rng.sample(alphabet, m if not thorough else 6) + [rng.choice(ODD)]:
                    if c != form[k]:
                        yield 'address', [form[:k] + c + form[k + 1:], name]
                        if form is u:
                            yield 'cash', [form[:k] + c + form[k + 1:]]
    # characters that Unicode takes for letters of the address once the case is changed
    for t, u, name in picks + good[::7]:
        bare = u.split(':')[1]
        for form in (t, u, bare, u.upper(), bare.upper(), u.split(':')[0] + ':' + bare.upper()):
            for c, odd in (('K', '\u212a'), ('k', '\u212a'), ('s', '\u017f'), ('S', '\u017f'), ('I', '\u0130'), ('1', '\u0661'), ('1', '\xb9')):
                if c in form:
                    for k in {form.index(c), form.rindex(c)}:
                        yield 'address', [form[:k] + odd + form[k + 1:], name]
                        if form not in (t, bare):
                            yield 'cash', [form[:k] + odd + form[k + 1:]]
    for name in COINS:
        yield 'address', [b58c(b''), name]
    t, u, name = rng.choice(good)
    bare = u.split(':')[1]
    for form, alphabet in ((t, B58), (bare, CHARSET)):
        for k in range(len(form)):
            for c in alphabet:
                if c != form[k]:
                    yield 'address', [form[:k] + c + form[k + 1:], name]
    for _ in range(300 * n):
        t, u, name = rng.choice(good)
        for form in (t, u):
            x = form
            for _ in range(rng.randrange(1, 4)):
                x = mutate(rng, x, (B58 if form is t else CHARSET) + rng.choice(['', ODD]))
            yield 'address', [x, name]
            if form is u:
                yield 'cash', [x]
    # base58 payloads of other sizes and versions
    for size in (0, 1, 18, 19, 20, 21, 22, 23, 31, 32):
        for ver in (0, 5, 111, 196, 128, 239, 1, 255):
            b = bytes([ver]) + rng.randbytes(size)
            for name in COINS:
                yield 'address', [b58c(b), name]
    for ver in range(256):
        yield 'address', [b58c(bytes([ver]) + rng.randbytes(20)), rng.choice(list(COINS))]
    # a good payload with something more, or less, at either end
    for ver in (0, 5, 111, 196):
        for extra in (b'\0', b'\1', b'\xff', bytes(2), bytes(8), bytes(11), bytes([ver]), rng.randbytes(4), rng.randbytes(12), rng.randbytes(21)):
            b = bytes([ver]) + rng.choice((rng.randbytes(20), bytes(20), b'\1' + rng.randbytes(18) + b'\0'))
            for x in (extra + b, b + extra, extra + b + extra, b[:1] + extra + b[1:], b[len(extra):], b[:-len(extra)]):
                for name in COINS:
                    yield 'address', [b58c(x), name]
    # cashaddr of every version byte and size
    for version in range(256):
        size = [20, 24, 28, 32, 40, 48, 56, 64][version % 8]
        for s in {size, size + rng.choice((-1, 1, 4, -4)), 20}:
            u = cash_of(rng.choice(['bitcoincash', 'bchtest', 'pref', 'z']), 0, rng.randbytes(s), version)
            yield 'cash', [u]
            for name in ('Bitcoin', 'BitcoinTestnet'):
                yield 'address', [cash_of(prefix[name], 0, rng.randbytes(s), version), name]
    for kind in (0, 1, 2):
        for size in range(0, 70):
            yield 'cash', [cash_of('bitcoincash', 0, rng.randbytes(size), kind * 8 + rng.randrange(8))]
    # paddings: bits that do not belong, symbols too many
    for _ in range(30 * n):
        for size, code in ((20, 0), (24, 1), (28, 2), (32, 3), (40, 4), (48, 5), (56, 6), (64, 7)):
            sym = symbols(bytes([8 * rng.randrange(2) + code]) + rng.randbytes(size))
            pad = -(8 * (size + 1)) % 5
            p = rng.choice(['bitcoincash', 'bchtest', 'a', 'x1', '!', '~{}', 'bitcoincash'])
            if pad:
                bad = sym[:-1] + [sym[-1] | rng.randrange(1, 1 << pad)]
                yield 'cash', [cash_text(p, bad)]
                yield 'address', [cash_text('bitcoincash', bad), 'Bitcoin']
            yield 'cash', [cash_text(p, sym + [0])]
            yield 'cash', [cash_text(p, sym + [0, 0])]
            yield 'cash', [cash_text(p, [0] + sym)]
            yield 'cash', [cash_text(p, sym[:-1])]
            yield 'cash', [cash_text(p, sym, 1 << rng.randrange(40))]
            yield 'cash', [cash_text(p, sym)]
            yield 'cash', [cash_text(p, sym).upper()]
            yield 'address', [cash_text('bitcoincash', sym + [0]), 'Bitcoin']
            yield 'address', [cash_text('bitcoincash', sym, 1 << rng.randrange(40)), 'Bitcoin']
    # prefixes: any printable character, also none; the five low bits count
    for cp in list(range(0, 130)) + [0xe9, 0x130, 0x17f, 0x212a, 0x1f600]:
        for p in (chr(cp), 'ab' + chr(cp), chr(cp) + '1'):
            u = cash_of(p, 0, hashes[5])
            yield 'cash', [u]
            yield 'cash', [u.upper()]
            yield 'cash', [u.lower()]
    for p in ('', 'bitcoincasH', 'BITCOINCASH', 'bitcoincash:x', 'bitcoincas', 'bitcoincashh', 'simpleledger', '"itcoincash', '\x02itcoincash', 'bchreg'):
        for kind in (0, 1):
            u = cash_of(p, kind, hashes[6])
            yield 'cash', [u]
            yield 'cash', [u.upper()]
            for name in COINS:
                yield 'address', [u, name]
                yield 'address', [u.split(':')[1], name]
                yield 'address', [prefix[name] + ':' + u, name]
    # lengths of the payload, all good checksums
    for length in range(0, 126):
        for p in ('a', 'bitcoincash'):
            yield 'cash', [cash_text(p, [0] * length)]
            yield 'cash', [cash_text(p, [rng.randrange(32) for _ in range(length)])]
            yield 'cash', [p + ':' + 'q' * length]
    for t in ('', ':', 'a:', ':q', 'bitcoincash:', 'q' * 42, 'bitcoincash:' + 'q' * 42, '1' * 34, '1' * 36, 'bitcoincash', '::', ' ' * 40, '9' * 42):
        yield 'cash', [t]
        for name in COINS:
            yield 'address', [t, name]


def texts_c27(rng, thorough):
    n = 10 if thorough else 3
    H = 2 ** 31
    vals = [0, 1, 2, 9, 10, 44, 255, 256, H - 2, H - 1]
    big = [H, H + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 10, 10 ** 30, 10 ** 100]
    mark = ("'", 'h', 'H', '"', "''", '\u2019', "'h", '`')

    def part():
        r = rng.random()
        v = rng.choice(vals) if r < .5 else rng.randrange(H)
        return '0' * (rng.randrange(4) if rng.random() < .1 else 0) + str(v) + ("'" if rng.random() < .4 else '')
    for t in ('', 'm', 'M', '/', 'm/', '/m', 'm//', 'm/0', 'm/0/', 'm//0', 'n/0', 'mm', 'm m', ' m', 'm ', 'm\n', 'm/0\n', 'm/0 ', 'm/ 0', "m/'", "m/0''", "m/'0",
              'm/-0', 'm/-1', 'm/+1', 'm/0x1', 'm/1e1', 'm/1.0', 'm/1_0', 'm/a', 'm/0\x00', 'm\x00', 'm/m', 'm/0/m', "m'", "m'/0", '0', '0/1', "0'", 'x/0', 'm\\0',
              'm/\u0661', 'm/\uff11', 'm/\xb2', 'm/1\u0661', 'm/\u0661\'', '\uff4d/0', 'm/1/2/3/4/5/6/7/8/9', 'm/' + '0' * 300, 'm/' + '0' * 300 + '1', 'm' + '/0' * 300):
        yield 'path', [t]
    for v in vals + big:
        for m in ('',) + mark:
            yield 'path', [f'm/{v}{m}']
            yield 'path', [f'm/{v}{m}/1']
            yield 'path', [f'm/5/000{v}{m}']
    for c in map(chr, list(range(0, 256)) + [0x660, 0x6f0, 0x966, 0xff10, 0x2070, 0x2460, 0x4e00, 0x1d7ce]):
        for t in (f'm/{c}', f'm/1{c}', f'm/{c}1', f'm{c}1', f'{c}/1', f'{c}m/1', f"m/1{c}'", f"m/1'{c}", f'm/1/{c}', f'm/1{c}/2'):
            yield 'path', [t]
    for _ in range(300 * n):
        t = 'm' + ''.join('/' + part() for _ in range(rng.randrange(1, 8)))
        yield 'path', [t]
        yield 'path', [mutate(rng, t, "0123456789m/' -+hx")]
        yield 'path', [mutate(rng, t, ODD)]
    for k in ('bytes', 'none', 'int', 'list', 'bytearray', 'tuple'):
        yield 'path_bad', [k]

    def I(v):
        a = abs(v)
        return ['i', '-' if v < 0 else '', a.to_bytes((a.bit_length() + 7) // 8, 'big').hex()]
    edge = vals + [H, H + 1, H + 9, 2 ** 32 - 2, 2 ** 32 - 1]
    bad = [-1, -2, -H, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 64, -2 ** 64]
    for shape in ('list', 'tuple', 'iter'):
        yield 'path_build', [[], shape]
        for v in edge + bad:
            yield 'path_build', [[I(v)], shape]
            yield 'path_build', [[I(v), I(1)], shape]
            yield 'path_build', [[I(0), I(v)], shape]
            yield 'path_build', [[I(1), I(v), I(2)], shape]
        for b in ('01', ''):
            yield 'path_build', [[['i', 'bool', b]], shape]
            yield 'path_build', [[I(3), ['i', 'bool', b], I(4)], shape]
        for k in ('str', 'none', 'float', 'bytes', 'list'):
            for xs in ([[k]], [[k], I(1)], [I(1), [k]], [I(1), [k], I(-1)], [I(-1), [k]], [I(1), I(2), I(3), [k]]):
                yield 'path_build', [xs, shape]
        for _ in range(60 * n):
            yield 'path_build', [[I(rng.choice(edge) if rng.random() < .5 else rng.randrange(2 ** 32)) for _ in range(rng.randrange(1, 12))], shape]
        yield 'path_build', [[I(rng.randrange(2 ** 32)) for _ in range(300)], shape]


if __name__ == '__main__':
    cfg, out = load()
    gen = {'C19': texts_c19, 'C20': texts_c20, 'C27': texts_c27}[cfg['pid']]
    run(gen(cfg['rng'], cfg['thorough']), out, cfg['rng'])
