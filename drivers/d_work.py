"""C10: compact bits, targets and work."""
import os, struct, tempfile
from lib import *
import bitcoinx as bx


@op
def bits_to_target(a):
    return outcome(lambda: bx.bits_to_target(int(a[0], 16)), ValueError)


@op
def bits_to_work(a):
    return outcome(lambda: bx.bits_to_work(int(a[0], 16)), ValueError)


@op
def target_to_bits(a):
    v = int(a[1] or '0', 16)
    return outcome(lambda: bx.target_to_bits(-v if a[0] == '-' else v), ValueError)


COINS = {c.name: c for c in bx.all_coins}


@op
def header(a):
    h = COINS[a[2]].deserialized_header(bytes.fromhex(a[0]), a[1])
    return '[' + ','.join([enc(x) for x in (h.version, h.prev_hash, h.merkle_root, h.timestamp, h.bits, h.nonce,
                                            h.hash, h.raw, h.height)]
                          + [outcome(h.work, ValueError), outcome(h.target, ValueError), outcome(h.hash_value),
                             outcome(h.hex_str)]) + ']'


@op
def coin_header(a):
    c, raw = COINS[a[1]], bytes.fromhex(a[0])
    return '[' + ','.join([outcome(lambda: c.header_hash(raw)), outcome(lambda: c.header_prev_hash(raw)),
                           outcome(lambda: c.header_timestamp(raw)), outcome(lambda: c.header_bits(raw)),
                           outcome(lambda: c.header_work(raw), ValueError)]) + ']'


def double(f):
    try:
        n, d = f().as_integer_ratio()
    except Timeout:
        raise
    except Exception as e:
        return ['!', type(e).__name__]
    if n < 0:
        return ['!', 'negative']
    return [n.to_bytes((n.bit_length() + 7) // 8, 'big').hex(), d.bit_length() - 1]


@rel
def difficulty(a):
    bits = bytes.fromhex(a[0])
    coin = COINS[a[2]]
    if a[1]:
        return double(lambda: coin.deserialized_header(bytes(72) + bits[::-1] + bytes(4), 0).difficulty())
    return double(lambda: coin.bits_to_difficulty(int.from_bytes(bits, 'big')))


class Free(bx.Coin):
    """Accepts any header."""
    def __init__(self):
        c = bx.Bitcoin
        super().__init__('free', c.genesis_header.hex(), None, c.P2PKH_verbyte, c.P2SH_verbyte, c.WIF_byte, c.xpub_verbytes, c.xprv_verbytes, 'free')
        self.required_bits = lambda headers, chain, height, timestamp=None: self.want

    def header_hash(self, raw):
        return bx.double_sha256(raw)[:4] + bytes(28)


@rel
def log2(a):
    coin, res, prev = Free(), [], bytes(32)
    with tempfile.TemporaryDirectory() as d:
        for k, b in enumerate(a[1]):
            raw = bytes(4) + prev + bytes(32) + struct.pack('<I', k) + bytes.fromhex(b)[::-1] + bytes(4)
            prev = coin.header_hash(raw)
            if k == 0:
                hs = bx.Headers.from_file(coin, os.path.join(d, 'headers'), bx.CheckPoint(raw, 0, int(a[0] or '0', 16)))
            else:
                coin.want = int(b, 16)
                hs.connect(raw)
            chain = hs.longest_chain()
            text = chain.desc()
            res.append([double(chain.log2_work), double(chain.log2_work), 't' if abs(float(text.split('log2_work=')[1]) - chain.log2_work()) < 1e-8 else 'f'])
        hs = None
    return res


def c32(cfg, out, rng, big):
    cases = []
    exps = list(range(0, 0x23))
    bits = {0x1d00ffff, 0x207fffff, 0x1b0404cb, 0x2100ffff, 0x1c7fffff, 0x1d008000, 0x1d7fffff, 0x03008000, 0x0200ff00, 0x02800000}
    for e in exps:
        for w in (0x8000, 0x8001, 0xffff, 0x10000, 0x7fffff, 0x7fff, 0x800000, 0x123456):
            bits.add(e << 24 | w)
    for _ in range(20000 if big else 1500):
        bits.add(rng.choice(exps) << 24 | rng.getrandbits(23))
    for b in sorted(bits - {0}):
        cases.append(('difficulty', [b.to_bytes(4, 'big').hex(), rng.random() < .5, rng.choice(sorted(COINS))]))
    good = []
    for b in bits - {0}:
        try:
            if 1 << 32 <= bx.bits_to_target(b) < 1 << 255:
                good.append(b)
        except ValueError:
            pass
    for _ in range(600 if big else 60):
        w = rng.choice((0, 0, 1, rng.getrandbits(rng.randrange(1, 300)), (1 << rng.randrange(1, 300)) - rng.randrange(2)))
        bs = [rng.choice(good) for _ in range(rng.randrange(1, 8))]
        if rng.random() < .5:
            bs.sort()
        cases.append(('log2', [w.to_bytes((w.bit_length() + 7) // 8, 'big').hex(), [b.to_bytes(4, 'big').hex() for b in bs]]))
    run(cases, out, rng)


def main():
    cfg, out = load()
    rng, big = cfg['rng'], cfg['thorough']
    if cfg['pid'] == 'C32':
        return c32(cfg, out, rng, big)
    cases = [(c['op'], c['a']) for c in cfg['cases']]
    add = lambda name, *a: cases.append((name, list(a)))
    exps = list(range(0, 0x24)) + [0x7f, 0x80, 0x83, 0xa1, 0xff]
    tops, lows = (0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xff), (0, 1, 0x7f, 0x80, 0xff)
    allbits = {(e << 24) | (a << 16) | (b << 8) | c for e in exps for a in tops for b in lows for c in lows}
    allbits |= {(e << 24) | w for e in exps for w in (0x7fff, 0x8000, 0x8001, 0x7fffff, 0x7ffffe, 0x800000, 0xffff, 0x10000)}
    allbits |= {0x2100ffff + d for d in (-1, 0, 1)} | {0x1d00ffff, 0x207fffff, 0x1b0404cb, 0x05009234}
    for _ in range(60000 if big else 4000):
        e = rng.choice(exps[:0x23])
        allbits.add((e << 24) | rng.getrandbits(rng.choice((23, 24))))
        allbits.add(rng.getrandbits(32))
        # representable in a short size: trailing zero bytes
        s = rng.randrange(0, 4)
        w = rng.getrandbits(24) & ~((1 << (8 * (3 - s))) - 1) if s < 3 else rng.getrandbits(24)
        allbits.add((s << 24) | w)
    for b in sorted(allbits):
        add('bits_to_target', b.to_bytes(4, 'big').hex())
        if rng.random() < .6:
            add('bits_to_work', b.to_bytes(4, 'big').hex())
    targets = set()
    for k in range(0, 264):
        for d in (-2, -1, 0, 1):
            targets.add((1 << k) + d)
    for n in range(0, 34):
        for top in (1, 0x7f, 0x80, 0x81, 0xff):
            for nxt in (0, 0x7f, 0x80, 0xff):
                for rest in (0, 1, -1):
                    t = (top << 8 | nxt) << (8 * n)
                    targets.add(t + rest)
    for _ in range(40000 if big else 3000):
        targets.add(rng.getrandbits(rng.randrange(1, 260)))
    for t in sorted(targets):
        a = abs(t)
        add('target_to_bits', '-' if t < 0 else '', a.to_bytes((a.bit_length() + 7) // 8, 'big').hex())
    for t in (1, 5, 1 << 40, (1 << 256) + 1):
        add('target_to_bits', '-', t.to_bytes((t.bit_length() + 7) // 8, 'big').hex())
    pool = [b for b in allbits if (b >> 24) < 0x22]
    for _ in range(4000 if big else 500):
        raw = bytearray(rng.randbytes(80))
        if rng.random() < .8:
            raw[72:76] = rng.choice(pool).to_bytes(4, 'little')
        if rng.random() < .2:
            raw[:] = bytes(80) if rng.random() < .3 else b'\xff' * 80
        name = rng.choice(sorted(COINS))
        add('header', bytes(raw).hex(), rng.choice((0, 1, -1, 500000, rng.getrandbits(30))), name)
        add('coin_header', bytes(raw).hex(), name)
    run(cases, out, rng)


main()
