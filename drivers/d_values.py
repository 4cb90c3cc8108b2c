"""C30, C31: comparing and printing values made in many ways."""
import traceback
import bitcoinx as bx
from lib import *

COINS = {'Bitcoin': bx.Bitcoin, 'BitcoinTestnet': bx.BitcoinTestnet, 'BitcoinScalingTestnet': bx.BitcoinScalingTestnet,
         'BitcoinRegtest': bx.BitcoinRegtest}
fromhex = bytes.fromhex
ZERO9 = bytes(9)


def build(d):
    k = d[0]
    if k == 'priv':
        return bx.PrivateKey(fromhex(d[1]), d[2], COINS[d[3]])
    if k == 'wif':
        return bx.PrivateKey.from_WIF(bx.PrivateKey(fromhex(d[1]), d[2], COINS[d[3]]).to_WIF())
    if k in ('xprv', 'xpub'):   # secret, chain code, coin
        x = bx.bip32_key_from_string(bx.base58_encode_check(COINS[d[3]].xprv_verbytes + ZERO9 + fromhex(d[2]) + b'\0' + fromhex(d[1])))
        return x if k == 'xprv' else x.public_key
    if k == 'pub':
        return bx.PrivateKey(fromhex(d[1]), d[2], COINS[d[3]]).public_key
    if k == 'pubb':
        return bx.PublicKey.from_bytes(fromhex(d[1]))
    if k == 'script':
        return script(fromhex(d[1]))
    if k == 'sig':
        return bx.Signature(fromhex(d[1]))
    if k == 'bytes':
        return fromhex(d[1])
    if k == 'bytearray':
        return bytearray(fromhex(d[1]))
    if k == 'view':
        return memoryview(fromhex(d[1]))
    if k == 'p2pkh':
        return bx.P2PKH_Address(fromhex(d[1]), COINS[d[2]])
    if k == 'p2sh':
        return bx.P2SH_Address(fromhex(d[1]), COINS[d[2]])
    if k == 'p2pk':
        return bx.P2PK_Output(build(d[1]), COINS[d[2]])
    if k == 'multi':
        return bx.P2MultiSig_Output((build(x) for x in d[2]), d[1])
    if k == 'opreturn':
        return bx.OP_RETURN_Output()
    if k == 'unknown':
        return bx.Unknown_Output()
    if k == 'deriv':
        return bx.BIP32Derivation(fromhex(d[1]), int(d[2]), int(d[3]), fromhex(d[4]))
    if k == 'txin':
        return bx.TxInput(fromhex(d[1]), int(d[2]), script(fromhex(d[3])), int(d[4]))
    if k == 'txout':
        return bx.TxOutput(int(d[1]), script(fromhex(d[2])))
    if k == 'tx':
        return bx.Tx(int(d[1]), [build(x) for x in d[2]], [build(x) for x in d[3]], int(d[4]))
    if k == 'header':
        return COINS[d[3]].deserialized_header(fromhex(d[1]), d[2])
    if k == 'hmix':     # header, fields assigned, header they come from
        x, y = build(['header'] + d[1:4]), build(['header', d[5], d[6], d[3]])
        for n in d[4]:
            setattr(x, n, getattr(y, n))
        return x
    if k == 'comp':
        return build(d[1]).complement()
    if k in ('padd', 'sadd'):
        return build(d[1]).add(fromhex(d[2]))
    if k in ('pmul', 'smul'):
        return build(d[1]).multiply(fromhex(d[2]))
    if k == 'psum':
        return bx.PublicKey.combine_keys([build(d[1]), build(d[2])])
    if k == 'int':
        return int(d[1])
    if k == 'sighash':
        return bx.SigHash(int(d[1]))
    if k == 'text':
        return d[1]
    if k == 'none':
        return None
    raise AssertionError(k)


@kept
def built_(text):
    return build(json.loads(text))


def built(d):
    return built_(json.dumps(d))


def t(f):
    try:
        v = f()
    except Timeout:
        raise
    except Exception as e:
        return '!' + type(e).__name__
    return 't' if v is True else 'f' if v is False else '?' + type(v).__name__


def compare(a, b):
    r = [t(lambda: a == b), t(lambda: b == a), t(lambda: a != b), t(lambda: b != a)]
    has = [t(lambda: isinstance(hash(x), int)) for x in (a, b)]
    r += ['f' if h == '!TypeError' else h for h in has]
    both = has == ['t', 't']
    return r + [t(lambda: hash(a) == hash(b)) if both else 'n', t(lambda: b in {a} and a in {b: 1}) if both else 'n']


@rel
def eq(a):
    return compare(built(a[0]), built(a[1]) if a[0] != a[1] else build(a[1]))


@rel
def _self(a):
    x = built(a[0])
    return compare(x, x)


@rel
def eqmut(a):
    x, y = build(a[0]), build(a[1])
    first = compare(x, y)
    change(y, a[1], a[2])
    return [first, compare(x, y)]


def change(obj, d, e):
    """Make obj, built as d, what e describes, by assigning attributes."""
    if d[0] == 'header':
        new = build(e)
        for n in e[4] if e[0] == 'hmix' else ('height',):
            setattr(obj, n, getattr(new, n))
        return
    names = dict(txin=('prev_hash', 'prev_idx', 'script_sig', 'sequence'), txout=('value', 'script_pubkey'),
                 tx=('version', 'inputs', 'outputs', 'locktime'))[d[0]]
    new = build(e)
    for k, n in enumerate(names, 1):
        if d[k] != e[k]:
            if n in ('inputs', 'outputs') and len(d[k]) == len(e[k]):
                for j, (p, q) in enumerate(zip(d[k], e[k])):
                    if p != q:
                        change(getattr(obj, n)[j], p, q)
            else:
                setattr(obj, n, getattr(new, n))


@op
def _str(a):
    return enc(str(built(a[0])))


@op
def _repr(a):
    return enc(repr(built(a[0])))


@op
def leak(a):
    """Whether printing a private key in some way shows its secret."""
    x = build(a[0])
    secret = x.to_bytes()
    texts = [str(x), repr(x), f'{x}', '%s %r' % (x, x), ascii(x), format(x), str([x]), repr({x: x}), str((x,))]
    try:
        x.add('no bytes')
    except Exception as e:
        texts += [str(e), repr(e), ''.join(traceback.format_exception(e))]
    n = int.from_bytes(secret, 'big')
    forms = [secret.hex(), secret.hex().upper(), str(n), f'{n:x}', repr(secret)[2:-1]]
    forms += [x.to_WIF(coin=c, compressed=f) for c in COINS.values() for f in (True, False)]
    if a[0][0] == 'xprv':
        forms.append(x.to_extended_key_string())
    return any(f in s for f in forms for s in texts if n > 1 << 60)


FIELDS = ['version', 'prev_hash', 'merkle_root', 'timestamp', 'bits', 'nonce', 'hash', 'raw', 'height']
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141


def h32(n):
    return n.to_bytes(32, 'big').hex()


def main():
    cfg, out = load()
    rng, big = cfg['rng'], cfg['thorough']
    cases = []
    add = lambda name, *a: cases.append((name, list(a)))
    coins = list(COINS)
    rb = lambda n: rng.randbytes(n).hex()

    def secrets():
        d = rng.randrange(1, N)
        return [d, N - d, rng.choice((1, 2, N - 1, 1 << 255)), (d % (N - 2)) + 1]     # N - d: the same x coordinate

    def keys():
        ks = []
        for d in secrets():
            s = h32(d)
            for f in (True, False):
                ks += [['priv', s, f, rng.choice(coins)], ['wif', s, f, rng.choice(coins)], ['pub', s, f, rng.choice(coins)],
                       ['pubb', bx.PrivateKey(fromhex(s)).public_key.to_bytes(compressed=f).hex()]]
            full = bx.PrivateKey(fromhex(s)).public_key.to_bytes(compressed=False)
            ks.append(['pubb', bytes([6 + full[-1] % 2]).hex() + full[1:].hex()])
            cc = rb(32)
            ks += [['xprv', s, cc, rng.choice(coins)], ['xpub', s, cc, rng.choice(coins)], ['xpub', s, rb(32), rng.choice(coins)]]
            # computed from others, and back at s
            v = rng.randrange(1, N)
            start = lambda w: rng.choice([['priv', h32(w), rng.random() < .5, rng.choice(coins)], ['xprv', h32(w), cc, rng.choice(coins)]])
            ks += [['sadd', start((s_ - v) % N or 1), h32(v)] for s_ in (d,)] + [['smul', start(d * pow(v, -1, N) % N), h32(v)]]
            pstart = lambda w: rng.choice([['pub', h32(w), rng.random() < .5, rng.choice(coins)], ['xpub', h32(w), cc, rng.choice(coins)]])
            ks += [['comp', k] for k in rng.sample([k for k in ks if k[0] in ('pub', 'pubb', 'xpub')], 2)]
            ks += [['comp', ['xpub', s, cc, rng.choice(coins)]], ['comp', ['comp', ['xpub', s, cc, rng.choice(coins)]]]]
            p = pstart((d - v) % N or 1)
            ks += [['padd', p, h32(v)], ['pmul', pstart(d * pow(v, -1, N) % N), h32(v)], ['psum', p, pstart(v)], ['comp', ['padd', p, h32(v)]],
                   ['padd', ['xpub', s, cc, 'Bitcoin'], h32(0)], ['pmul', ['xpub', s, cc, 'Bitcoin'], h32(1)], ['psum', ['xpub', s, cc, 'Bitcoin'], pstart(v)],
                   ['sadd', ['xprv', s, cc, 'Bitcoin'], h32(0)], ['smul', ['xprv', s, cc, 'Bitcoin'], h32(1)]]
        return ks

    def sigs():
        k = bx.PrivateKey(rng.randbytes(31) + b'\1')
        s = k.sign(rb(9).encode(), bx.sha256)
        return [(s + bytes([b])).hex() for b in (0x41, 0x42)] + ['ff']

    def binary(pool):
        b = rng.choice(pool)
        v = bytearray(fromhex(b))
        if v:
            v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
        bs = [b, v.hex(), b + '00', b[:-2]]
        sg = sigs()
        for s in bs + sg:
            for k in ('script', 'bytes', 'bytearray', 'view') + (('sig',) if s in sg else ()):
                yield [k, s]

    def outputs(ks):
        pubs = [k for k in ks if k[0] in ('pub', 'pubb', 'xpub', 'comp', 'padd', 'psum')]
        h = rb(20)
        for x in (h, h[:-2] + '%02x' % (int(h[-2:], 16) ^ 1), rb(20)):
            for k in ('p2pkh', 'p2sh'):
                for c in rng.sample(coins, 2):
                    yield [k, x, c]
        yield ['opreturn']
        yield ['unknown']
        for p in rng.sample(pubs, 6):
            yield ['p2pk', p, rng.choice(coins)]
        three = rng.sample(pubs, 3)
        alike = [next(q for q in pubs[rng.randrange(len(pubs)):] + pubs if build(q) == build(p)) for p in three]
        for ps in (three, alike, three[::-1], three[:2], three + three[:1], [three[0]] * 3):
            for m in (1, 2):
                if m <= len(ps):
                    yield ['multi', m, ps]
        for n in (rng.choice((4, 15, 16)), rng.choice((17, 20, 21, 33))):
            many = [rng.choice(pubs) for _ in range(n)]
            again = [next((q for q in rng.sample(pubs, len(pubs)) if build(q) == build(p)), p) for p in many]
            for m in {1, n // 2, n - 1, n}:
                yield ['multi', m, many]
            yield ['multi', n, again]
            yield ['multi', n // 2, many[1:] + many[:1]]
            yield ['multi', n // 2, many[:-1]]
            yield ['multi', n // 2, many + many[-1:]]

    def derivs():
        d = ['deriv', rb(32), str(rng.randrange(5)), str(rng.randrange(4)), rb(4)]
        yield d
        for k, v in ((1, rb(32)), (2, str(1 << 31)), (3, '255'), (4, rb(4))):
            yield d[:k] + [v] + d[k + 1:]

    def script():
        return rb(rng.randrange(4)) if rng.random() < .8 else rb(rng.choice((20, 75, 76, 200, 252, 253, 256, 500, 520, 521, 600, 1001, 2050, 4097)))

    def number(*usual):
        """Now and then one that cannot be serialized."""
        return str(rng.choice(usual) if rng.random() < .85 else rng.choice((1 << 31, 1 << 32, 1 << 40, 1 << 63, 1 << 64, -1, -(1 << 31) - 1, -(1 << 63) - 1)))

    def txin():
        return ['txin', rng.choice(('00' * 32, rb(32), rb(32), rb(32), rb(rng.choice((0, 31, 33))))), number(0, 1, 2 ** 32 - 1, rng.getrandbits(32)), script(),
                number(0, 2 ** 32 - 1, rng.getrandbits(32))]

    def txout():
        return ['txout', number(0, -1, 2 ** 63 - 1, rng.getrandbits(50)), script()]

    def tx():
        return ['tx', number(1, 2, -1, 2 ** 31 - 1), [txin() for _ in range(rng.randrange(1, 4))], [txout() for _ in range(rng.randrange(4))],
                number(0, 499999999, rng.getrandbits(32))]

    def variant(d):
        """One thing different."""
        if d[0] == 'txin':
            k = rng.randrange(1, 5)
            new = txin()
            new[1] = rb(32)
            new[2] = str(int(d[2]) ^ (1 << rng.randrange(32)))
            new[3] = d[3] + '00'
            new[4] = str(int(d[4]) ^ (1 << rng.randrange(32)))
            return d[:k] + [new[k]] + d[k + 1:]
        if d[0] == 'txout':
            return [d[0], str(int(d[1]) + 1 if int(d[1]) < 2 ** 62 else 0), d[2]] if rng.random() < .5 else [d[0], d[1], d[2] + '00']
        k = rng.randrange(1, 5)
        if k in (1, 4):
            return d[:k] + [str(int(d[k]) ^ 1 if int(d[k]) >= 0 else 5)] + d[k + 1:]
        items = list(d[k])
        r = rng.random()
        if r < .6 and items:
            j = rng.randrange(len(items))
            items[j] = variant(items[j])
        elif r < .75 and len(items) > 1:
            items = items[1:] + items[:1]
        elif r < .9:
            items.append(txin() if k == 2 else txout())
        else:
            items = items[:-1] if len(items) > 1 or k == 3 else items + [txin()]
        return d[:k] + [items] + d[k + 1:]

    def headers():
        raw = rng.choice((rng.randbytes(4), bytes((1, 0, 0, 0)), bytes((0, 0, 0, 32)), bytes((0, rng.randrange(256), 0, 0)))) + rng.randbytes(68) + bytes((0xff, 0xff, 0, 0x1d)) + rng.randbytes(4)
        if rng.random() < .7:
            raw = raw[:3] + bytes([raw[3] & 127]) + raw[4:]
        for r in (raw, raw[:-1] + bytes([raw[-1] ^ 1]), raw[:68] + bytes([raw[68] ^ 1]) + raw[69:]):
            for hgt in (-1, 0, 1):
                yield ['header', r.hex(), hgt, rng.choice(coins)]
        other = rng.randbytes(80)
        for f in FIELDS:
            yield ['hmix', raw.hex(), 0, 'Bitcoin', [f], other.hex(), 1]
        yield ['hmix', raw.hex(), 0, 'Bitcoin', FIELDS, other.hex(), 1]
        yield ['header', other.hex(), 1, 'Bitcoin']
        yield ['hmix', raw.hex(), 0, 'Bitcoin', ['hash', 'raw'], other.hex(), 1]
        yield ['hmix', raw.hex(), 0, 'Bitcoin', [f for f in FIELDS if f != 'raw'], other.hex(), 1]

    numbers = [[k, str(v)] for v in (0, 1, 0x41, 0xc3) for k in ('int', 'sighash')]
    others = numbers + [['none'], ['text', ''], ['text', 'aa']]

    for _ in range(16 if big else 2):
        ks = keys()
        pub = [k for k in ks if k[0] == 'pubb']
        bs = list(binary([rb(rng.randrange(1, 40)), '', pub[0][1], 'ff', '6a', rb(rng.choice((256, 520, 521, 1001, 3000)))]))
        os_ = list(outputs(ks))
        groups = [ks, bs, os_, list(derivs()), list(headers())]
        txs = [tx(), txin(), txout(), tx(), ['tx', '1', [txin()], [], str(1 << 32)], ['tx', '1', [txin(), ['txin', rb(32), str(1 << 32), '', '0']], [txout()], '0'],
               ['tx', '1', [txin()], [['txout', str(1 << 63), '']], '0'], ['tx', str(1 << 31), [], [txout()], '0']]
        for d in list(txs):
            txs += [variant(d) for _ in range(4)]
        groups.append(txs)
        if cfg['pid'] == 'C31':
            txs += [k + [rb(n)] + z for n in (75, 76, 255, 256, 257, 511, 512, 513, 520, 521, 1000, 1024, 1025, 2048, 2049, 10001)
                    for k, z in ((['script'], []), (['txout', '1'], []), (['txin', rb(32), '1'], ['2']))]
            txs.append(['tx', '2', [txin() for _ in range(40)], [txout() for _ in range(40)], '0'])
        flat = [d for g in groups for d in g] + others
        for g in groups + [numbers]:
            for a in g:
                for b in g:
                    if cfg['pid'] == 'C30':
                        add('eq', a, b)
        for d in flat:
            if cfg['pid'] == 'C30':
                add('self', d)
                for e in rng.sample(flat, 12) + rng.sample(others, 2):
                    add('eq', d, e)
                # binary that other values would turn into
                if d[0] in ('txin', 'txout', 'tx'):
                    for e in [variant(d) for _ in range(4)] + [d]:
                        add('eqmut', d, d, e)
                        add('eqmut', d, e, d)
                if d[0] == 'header':
                    other = rng.randbytes(80).hex()
                    for f in [[f] for f in FIELDS] + [rng.sample(FIELDS, 4)]:
                        e = ['hmix'] + d[1:4] + [f, other, d[2] + 1]
                        add('eqmut', d, d, e)
                        add('eqmut', e, d, e)
            else:
                if d[0] in ('priv', 'wif', 'pub', 'pubb', 'xprv', 'xpub', 'comp', 'padd', 'pmul', 'psum', 'sadd', 'smul', 'script', 'p2pkh', 'p2sh', 'txin', 'txout', 'tx', 'deriv'):
                    add('str', d)
                if d[0] in ('header', 'hmix') and build(d).version >= 0:
                    add('str', d)
                if d[0] in ('xprv', 'xpub', 'txin', 'txout', 'tx', 'deriv'):
                    add('repr', d)
                if d[0] in ('priv', 'wif', 'xprv', 'sadd', 'smul'):
                    add('leak', d)
    run(cases, out, rng)


main()
