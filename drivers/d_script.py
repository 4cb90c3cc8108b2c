"""C15 - C18: scripts."""
import hashlib
from lib import *
import bitcoinx as bx

COINS = {'Bitcoin': bx.Bitcoin, 'BitcoinTestnet': bx.BitcoinTestnet, 'BitcoinScalingTestnet': bx.BitcoinScalingTestnet,
         'BitcoinRegtest': bx.BitcoinRegtest}
NAMES = {id(c): n for n, c in COINS.items()}
P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
fromhex = bytes.fromhex


def num(sign, h):
    v = int.from_bytes(fromhex(h), 'big')
    return -v if sign == '-' else v


def mag(v):
    a = abs(v)
    return ['-' if v < 0 else '', a.to_bytes((a.bit_length() + 7) // 8, 'big').hex()]


@kept
def script_of(h):
    return script(fromhex(h))


def parse(s):
    """What iterating the script yields, and whether it ends in TruncatedScriptError."""
    res = []
    try:
        for x in script_of(s.hex()).ops():
            res.append(x)
    except bx.TruncatedScriptError:
        return res, True
    return res, False


def sha(b):
    return hashlib.sha256(b).digest()


@op
def push_item(a):
    s = bx.push_item(fromhex(a[0]))
    ops, trunc = parse(s)
    return enc([s, ops, len(ops) == 1 and isinstance(ops[0], bytes) and not trunc])


@op
def push_big(a):
    item = bytes([a[0]]) * a[1]
    s = bx.push_item(item)
    ops, trunc = parse(s)
    return enc([len(s), s[:6], sha(s), len(ops), ops == [item] and not trunc])


@op
def push_int(a):
    s = bx.push_int(num(*a))
    ops, trunc = parse(s)
    return enc([s, bx.item_to_int(ops[0])])


@op
def item_to_int(a):
    return enc(bx.item_to_int(fromhex(a[0])))


@op
def push_and_drop(a):
    return enc(bx.push_and_drop_items([fromhex(x) for x in a]))


@op
def push_and_drop_fill(a):
    s = bx.push_and_drop_items([bytes([a[0]]) * a[1]] * a[2])
    return enc([len(s), sha(s)])


@op
def push_and_drop_item(a):
    return enc(bx.push_and_drop_item(fromhex(a[0])))


def thing(x):
    k = x[0]
    if k == 'b':
        return fromhex(x[1])
    if k == 'a':
        return bytearray(fromhex(x[1]))
    if k == 'i':
        return num(x[1], x[2])
    if k == 'o':
        return bx.Ops(x[1])
    return script(fromhex(x[1]))


@op
def build(a):
    base = script(fromhex(a[0]))
    things = [thing(x) for x in a[1]]
    one = base
    for t in things:
        one = one << t
    k = len(things) // 2
    return enc([bytes(one), bytes(base.push_many(iter(things))),
                bytes(base << bx.Script().push_many(things[:k]) << bx.Script().push_many(things[k:])), bytes(base)])


@op
def append_bad(a):
    bad = {'str': 'ab', 'none': None, 'float': 1.5, 'list': [1], 'memoryview': memoryview(b'a')}[a[0]]
    if a[1]:
        return outcome(lambda: bytes(bx.Script() << bad), TypeError)
    return outcome(lambda: bytes(bx.Script().push_many([b'a', bad])), TypeError)


@op
def ops(a):
    r, t = parse(fromhex(a[0]))
    return enc([r, t])


@op
def readers(a):
    """Several readers of one script, each asked for some operations at a time; [0, 0] asks for all of them afresh."""
    s, its, res = script_of(a[0]), {}, []
    for i, k in a[1]:
        got, end = [], 'more'
        it = its.setdefault(i, None) or s.ops()
        if i:
            its[i] = it
        try:
            for _ in range(k if i else 1 << 30):
                got.append(next(it))
        except StopIteration:
            end = 'end'
        except bx.TruncatedScriptError:
            end = 'cut'
        res.append([got, end])
    return enc(res)


@op
def ops_parts(a):
    s = b''.join(fromhex(p[1]) if p[0] == 'hex' else bytes([p[1]]) * p[2] for p in a[0])
    r, t = parse(s)
    return enc([[[len(x), sha(x)] if isinstance(x, bytes) else x for x in r], t])


@op
def wrap(a):
    b, o = fromhex(a[0]), fromhex(a[1])
    s = bx.Script(b)
    return enc([len(s), bytes(s), s.to_bytes(), str(s), s.to_hex(), bx.Script.from_hex(a[0]) == s, s == b, s == bytearray(b),
                s == memoryview(b), hash(s) == hash(bx.Script(bytearray(b))), s == o, s == bx.Script(o), bx.Script(o) in {s}, s == a[0]])


@op
def template(a):
    s = script_of(a[0])
    return enc(again(s.to_template))


@op
def to_asm(a):
    return enc(script_of(a[0]).to_asm(a[1]))


@op
def from_asm(a):
    return outcome(lambda: bytes(bx.Script.from_asm(a[0])), bx.ScriptError)


@op
def asm_round(a):
    return outcome(lambda: bytes(bx.Script.from_asm(bx.Script(fromhex(a[0])).to_asm(False))), bx.ScriptError)


def describe(o):
    r = [type(o).__name__, o.KIND]
    if isinstance(o, (bx.P2PKH_Address, bx.P2SH_Address)):
        r += [o.hash160(), o.to_string(), NAMES.get(id(o.coin()), '?'), bytes(o.to_script())]
    elif isinstance(o, bx.P2PK_Output):
        ad = o.to_address()
        r += [o.public_key.to_bytes(), ad.to_string(), NAMES.get(id(ad.coin()), '?'), bytes(o.to_script())]
    elif isinstance(o, bx.P2MultiSig_Output):
        r += [o.threshold, [k.to_bytes() for k in o.public_keys], bytes(o.to_script())]
    elif isinstance(o, bx.OP_RETURN_Output):
        r += [bytes(o.to_script())]
    return r


def classified(script, coin):
    return bx.classify_output_script(script, coin)


@op
def classify(a):
    return enc(describe(classified(script_of(a[0]), COINS[a[1]])))


KIND = {'pubkeyhash': bx.P2PKH_Address, 'scripthash': bx.P2SH_Address}


def ask(o):
    """Everything an output answers."""
    return [f() for f in (o.to_script, o.to_script_bytes, o.hash160) + tuple(getattr(o, n) for n in ('to_string', 'to_address', 'public_key_count') if hasattr(o, n))]


def siblings(k):
    """The forms of a key that compare equal to it, if it is one."""
    try:
        q = bx.PublicKey.from_bytes(k)
    except ValueError:
        return []
    return [x for x in (q.to_bytes(compressed=False), q.to_bytes(compressed=True)) if x != q.to_bytes()]


@op
def canon_hash(a):
    h, coin = fromhex(a[1]), COINS[a[2]]

    def f():
        for c in COINS.values():
            ask(KIND[a[0]](h, c))
        o = KIND[a[0]](h, coin)
        s = o.to_script()
        c = classified(s, coin)
        other = KIND[a[0]](fromhex(a[3]), coin)
        kind2 = KIND['scripthash' if a[0] == 'pubkeyhash' else 'pubkeyhash'](h, coin)
        return [describe(c), s.to_bytes(), o == c, hash(o) == hash(c), o == other, o == kind2]
    return outcome(f, ValueError)


@op
def canon_key(a):
    coin = COINS[a[1]]

    def f():
        for k in siblings(fromhex(a[0])):
            for c in COINS.values():
                ask(bx.P2PK_Output(k, c))
        o = bx.P2PK_Output(fromhex(a[0]), coin)
        s = o.to_script()
        c = classified(s, coin)
        return [describe(c), s.to_bytes(), o == c, hash(o) == hash(c), o.hash160(), o.to_address().hash160(), o.to_address().to_string()]
    return outcome(f, ValueError)


@op
def canon_multi(a):
    coin = COINS[a[2]]

    def f():
        keys = [fromhex(x) for x in a[1]]
        if len(keys) < 6:
            for other in zip(*(siblings(k) for k in keys)):
                for t in range(1, len(keys) + 1):
                    ask(bx.P2MultiSig_Output(other, t))
        o = bx.P2MultiSig_Output(keys, a[0])
        s = o.to_script()
        c = classified(s, coin)
        # any iterable of keys will do, and keys in any of their forms
        forms = [(x for x in keys), iter(keys), tuple(keys), list(a[1]), map(str, a[1])]
        if coin is bx.Bitcoin:
            forms.append(bx.PublicKey.from_bytes(x) for x in keys)
        same = all(x == o and x.to_script_bytes() == s.to_bytes() and hash(x) == hash(o) and x.public_key_count() == len(keys)
                   for x in (bx.P2MultiSig_Output(f, a[0]) for f in forms))
        return [describe(c), s.to_bytes(), o == c, hash(o) == hash(c), o.public_key_count(), o.hash160(), same]
    return outcome(f, ValueError)


# -- cases ---------------------------------------------------------------

def lift(x, odd):
    y2 = (x ** 3 + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    if y * y % P != y2:
        return None
    return y if y % 2 == odd else P - y


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.rb = rng.randbytes

    def key(self):
        rng = self.rng
        while True:
            x = rng.randrange(P)
            y = lift(x, rng.randrange(2))
            if y is not None:
                break
        xb, yb = x.to_bytes(32, 'big'), y.to_bytes(32, 'big')
        k = rng.randrange(8)
        if k < 4:
            return bytes([2 + y % 2]) + xb
        if k < 7:
            return b'\4' + xb + yb
        return bytes([6 + y % 2]) + xb + yb

    def badkey(self):
        k = bytearray(self.key())
        rng = self.rng
        c = rng.randrange(8)
        if c == 0:
            return bytes(k[:-1])
        if c == 1:
            return bytes(k) + b'\0'
        if c == 2:
            k[0] = rng.choice((0, 1, 5, 8, 255))
        elif c == 3 and len(k) == 65:
            k[-1] ^= 1
        elif c == 4 and len(k) == 65:
            k[0] = 6 + (k[-1] + 1) % 2
        elif c == 5:
            k[0] = {2: 4, 3: 4, 4: 2, 6: 2, 7: 3}[k[0]]
        elif c == 6:
            k[1:33] = (P + rng.randrange(977)).to_bytes(32, 'big')
        else:
            x = rng.randrange(P)
            while lift(x, 0) is not None:
                x += 1
            k = bytes([2]) + x.to_bytes(32, 'big')
        return bytes(k)

    def anykey(self):
        return self.key() if self.rng.random() < .75 else self.badkey()

    def der(self):
        """A DER signature, often valid."""
        rng = self.rng

        def integer():
            v = rng.choice((0, 1, 127, 128, 255, 256, N - 1, N, N + 5, (1 << 255), (1 << 256) - 1, rng.getrandbits(256),
                            rng.getrandbits(256) % N, rng.getrandbits(248), rng.getrandbits(255)))
            b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
            c = rng.randrange(30)
            if c == 0:
                b = b'\0' + b
            elif c == 1:
                b = b.lstrip(b'\0')
            elif c == 2:
                b = b'\xff' + b
            elif c == 3:
                return b'\3' + bytes([len(b)]) + b
            elif c == 4:
                return b'\2\x81' + bytes([len(b)]) + b
            return b'\2' + bytes([len(b)]) + b
        body = integer() + integer()
        c = rng.randrange(30)
        if c == 0:
            return b'\x30' + bytes([len(body) - 1]) + body
        if c == 1:
            return b'\x30' + bytes([len(body)]) + body + b'\0'
        if c == 2:
            return b'\x31' + bytes([len(body)]) + body
        if c == 3:
            return b'\x30\x81' + bytes([len(body)]) + body
        if c == 4:
            return b'\x30' + bytes([len(body) + 1]) + body + b'\0'
        return b'\x30' + bytes([len(body)]) + body

    def sig(self):
        return self.der() + bytes([self.rng.choice((1, 2, 3, 0x41, 0x42, 0x43, 0xc1, 0xc3, 0, 0x81, 0xff, self.rng.randrange(256)))])

    def item(self):
        rng = self.rng
        c = rng.randrange(12)
        if c < 2:
            return bytes([rng.randrange(256)])
        if c == 2:
            return b''
        if c == 3:
            return rng.choice((b'\x81', b'\x80', b'\x01', b'\x10', b'\x11', b'\0', b'\0\x80', b'\x7f', b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff',
                               b'\0\0\0\x80', b'\5\0'))
        if c < 7:
            return self.rb(rng.randrange(1, 7))
        if c == 7:
            return self.sig()
        if c == 8:
            return self.anykey()
        if c == 9:
            return self.rb(rng.choice((19, 20, 20, 20, 21)))
        if c == 10:
            return fromhex(''.join(rng.choice('0123456789') for _ in range(2 * rng.randrange(2, 8))))
        return self.rb(rng.choice((73, 74, 75, 76, 77, 78, 255, 256, 257, 80, 300)))

    def piece(self):
        """One scriptlet."""
        rng = self.rng
        c = rng.randrange(10)
        if c < 5:
            return bytes(bx.push_item(self.item()))
        if c < 6:       # a push with any encoding
            b = self.item()[:rng.randrange(90)]
            n = len(b)
            return rng.choice((bytes([76, n]), bytes([77, n, 0]), bytes([78, n, 0, 0, 0]), bytes([n]) if n < 76 else bytes([76, n]))) + b
        if c < 8:
            return bytes([rng.randrange(76, 256)])
        return bytes([rng.choice((97, 109, 117, 118, 135, 136, 169, 172, 174, 106, 80, 79, 96, 0, 177, 178, 185, 186, 255))])

    def script(self):
        rng = self.rng
        c = rng.randrange(12)
        if c == 0:
            return self.rb(rng.randrange(12))
        s = b''.join(self.piece() for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 6, 10))))
        if c < 4 and s:
            s = s[:rng.randrange(len(s)) + 1]
        return s

    def noisy(self, pieces):
        """The pieces with no-ops and dropped pushes among them."""
        rng = self.rng
        out = []
        for p in pieces + [b'']:
            while rng.random() < .15:
                x, y = (self.rb(rng.randrange(4)) for _ in range(2))
                out.append(rng.choice((b'\x61', push(x) + b'\x75', push(x) + push(y) + b'\x6d', push(x) + b'\x61\x75',
                                       push(x) + push(y) + b'\x75\x75', push(x) + push(y) + b'\x61\x6d\x61',
                                       b'\x75', b'\x6d', push(x) + b'\x6d', push(x))[: 10 if rng.random() < .2 else 6]))
            out.append(p)
        return b''.join(out)

    def shape(self):
        """Pieces close to a standard script."""
        rng = self.rng
        c = rng.randrange(7)
        h = self.rb(20 if rng.random() < .85 else rng.randrange(40))
        if c == 0:
            ps = [b'\x76', b'\xa9', self.anypush(h), b'\x88', b'\xac']
        elif c == 1:
            ps = [b'\xa9', self.anypush(h), b'\x87']
        elif c == 2:
            ps = [self.anypush(self.anykey()), b'\xac']
        elif c == 3:
            ps = [push(self.item()) for _ in range(rng.randrange(4))] + [b'\x6a'] + [self.piece() for _ in range(rng.randrange(4))]
        else:
            n = rng.choice((0, 1, 1, 2, 3, 3, 5, 15, 16, 17, 20, rng.randrange(26), rng.randrange(26) if rng.random() < .9 else rng.choice((64, 127, 128, 129, 140))))
            m = rng.choice((0, 1, n, n, n + 1, rng.randrange(n + 2)))
            cnt = n if rng.random() < .85 else rng.randrange(n + 3)
            keys = [self.key() for _ in range(n)]
            if n and rng.random() < .15:
                keys[rng.randrange(n)] = self.badkey()
            for _ in range(rng.choice((0, 0, 0, 1, 2)) if n else 0):
                keys[rng.randrange(n)] = rng.choice(keys)
            ps = [self.anynum(m)] + [push(k) for k in keys] + [self.anynum(cnt), b'\xae']
        c = rng.randrange(12)
        if c == 0:
            ps.insert(rng.randrange(len(ps) + 1), self.piece())
        elif c == 1:
            del ps[rng.randrange(len(ps))]
        elif c == 2:
            ps[rng.randrange(len(ps))] = self.piece()
        elif c == 3:
            i, j = rng.randrange(len(ps)), rng.randrange(len(ps))
            ps[i], ps[j] = ps[j], ps[i]
        elif c == 4:
            ps.append(rng.choice((b'\5\1', b'\x4c', b'\x4d\1', b'\0', b'\x0a', b'\n')))
        return ps

    def anypush(self, b):
        n = len(b)
        if self.rng.random() < .15:
            return self.rng.choice((bytes([76, n]), bytes([77, n, 0]), bytes([78, n, 0, 0, 0]))) + b
        return push(b)

    def anynum(self, n):
        rng = self.rng
        c = rng.randrange(12)
        if c == 0:
            return push(bytes([n]))[-1:] if n > 16 else bytes([1, n])
        if c == 1:
            return bytes([2, n, 0])
        if c == 2:
            return bytes([2, n, 0x80])
        if c == 3:
            return bytes([1, n | 0x80])
        if c == 4:
            return push(bytes([n, 0, 0, 0, 1]))
        return bytes([0]) if n == 0 else bytes([80 + n]) if n <= 16 else bytes([1, n])


def push(b):
    """A push written independently of the code under test."""
    n = len(b)
    if n == 0:
        return b'\0'
    if n < 76:
        return bytes([n]) + b
    return (bytes([76, n]) if n < 256 else b'\x4d' + n.to_bytes(2, 'little')) + b


def main():
    cfg, out = load()
    rng, big, pid = cfg['rng'], cfg['thorough'], cfg['pid']
    n = 12000 if big else 1500
    g = Gen(rng)
    g.plans = [c['plan'] for c in cfg['cases']]
    cases = []

    def add(name, *a):
        cases.append((name, list(a)))
    globals()['cases_' + pid](g, rng, n, big, add)
    run(cases, out, rng)


def cases_C15(g, rng, n, big, add):
    for b in range(256):
        add('push_item', bytes([b]).hex())
        add('item_to_int', bytes([b]).hex())
        for c in (0, 1, 0x7f, 0x80, 0x81, 0xff):
            add('item_to_int', bytes([b, c]).hex())
            add('item_to_int', bytes([c, b]).hex())
    for k in list(range(0, 90)) + [127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 520, 521]:
        add('push_item', g.rb(k).hex())
        add('push_item', bytes(k).hex())
        add('push_item', (b'\x81' * k).hex())
    for k in (252, 253, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072) + ((1 << 20, (1 << 24) + 1) if big else (200001,)):
        add('push_big', rng.randrange(256), k)
    edges = set(range(-300, 301))
    for k in (7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 63, 64, 127, 128, 255, 256, 600, 2040):
        for d in range(-3, 4):
            edges |= {(1 << k) + d, -(1 << k) + d}
    for v in sorted(edges) + [rng.choice((1, -1)) * rng.getrandbits(rng.randrange(1, 700)) for _ in range(n // 4)]:
        add('push_int', *mag(v))
    for _ in range(n // 2):
        add('item_to_int', g.rb(rng.randrange(0, 10)).hex())
        add('push_item', g.item().hex())
        items = [g.item().hex() for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 12)))]
        add('push_and_drop', *items)
        add('push_and_drop_item', g.item().hex())
    for k in list(range(120, 132)) + list(range(250, 262)) + list(range(506, 518)) + [600, 767, 768, 1023, 1024, 1025, 1100]:
        add('push_and_drop_fill', rng.choice((0, 1, 5, 17, 129, 255)), rng.choice((0, 1, 2, 75, 76)), k)
        things = []
        for _ in range(rng.randrange(7)):
            c = rng.randrange(6)
            things.append(['b', g.item().hex()] if c < 2 else ['a', g.item().hex()] if c == 2 else
                          ['i'] + mag(rng.choice((0, -1, 1, 16, 17, 81, 118, 172, 255, -rng.getrandbits(20), rng.getrandbits(40)))) if c == 3 else
                          ['o', rng.choice([int(x) for x in bx.Ops])] if c == 4 else ['s', g.script().hex()])
        add('build', g.script().hex(), things)
    for x in [int(v) for v in bx.Ops]:
        add('build', '', [['o', x]])
    for x in ('str', 'none', 'float', 'list', 'memoryview'):
        add('append_bad', x, True)
        add('append_bad', x, False)


def cases_C16(g, rng, n, big, add):
    for b in range(256):
        add('ops', bytes([b]).hex())
        for tail in (b'', b'\0', b'\1', b'\1\0', b'\1\0\0', b'\1\0\0\0', b'\1\0\0\0\7', b'\1\7', b'\1\0\7', b'\0\0\0\0', b'\xff\xff\xff\xff', b'\0\0\0\x80',
                     b'\xff\xff\xff\x7f'):
            add('ops', (bytes([b]) + tail).hex())
    for k in list(range(0, 80)) + [252, 253, 254, 255, 256]:
        for pre in (bytes([k]) if k < 76 else b'', bytes([76, k & 255]) if k < 256 else b'', b'\x4d' + k.to_bytes(2, 'little'), b'\x4e' + k.to_bytes(4, 'little')):
            if pre:
                for s in (pre, pre + g.rb(k), pre + g.rb(max(k - 1, 0)), pre + g.rb(k + 1), b'\x51' + pre + g.rb(k) + b'\xac'):
                    add('ops', s.hex())
    for plan in g.plans:
        for s in ('', '51', '5101aa', '0201', '76a94c', '000102ac6a03aabbcc87', '51024c004d01', '6a' * 12):
            add('readers', s, plan)
    for _ in range(n // 4):
        add('readers', g.script().hex(), [rng.choice(([0, 0], [rng.randrange(1, 4), rng.randrange(1, 6)])) for _ in range(rng.randrange(1, 9))])
    for k in (255, 256, 65535, 65536, 70000):
        for form, w in ((77, 2), (78, 4)):
            if k < 256 ** w:
                for d in (-1, 0, 1):
                    add('ops_parts', [['hex', '51'], ['hex', bytes([form]).hex() + k.to_bytes(w, 'little').hex()], ['fill', 118, k + d], ['hex', 'ac' if d == 0 else '']])
    for _ in range(2 * n):
        s = g.script()
        add('ops', s.hex())
        if s:
            t = bytearray(s)
            t[rng.randrange(len(t))] = rng.choice((0, 75, 76, 77, 78, 79, 80, 81, 96, 97, rng.randrange(256)))
            add('ops', t.hex())
    for _ in range(n // 2):
        s = g.script()
        o = s if rng.random() < .3 else (s + b'\0' if rng.random() < .3 else s[:-1] if rng.random() < .5 else g.script())
        add('wrap', s.hex(), o.hex())


def cases_C17(g, rng, n, big, add):
    for b in range(256):
        for dec in (True, False):
            add('to_asm', bytes([b]).hex(), dec)
            add('to_asm', bytes([1, b]).hex(), dec)
            add('to_asm', bytes([81, b, 0, 81]).hex(), dec)
        add('asm_round', bytes([b]).hex())
        add('asm_round', bx.push_item(bytes([b])).hex())
        for sh in (b, ):
            add('to_asm', push(fromhex('3006020101020101') + bytes([sh])).hex(), True)
    words = ['OP_' + x for x in ('', 'X', '0', '17', 'PUSHDATA3', 'NOP11', 'FALSE', 'TRUE', 'nop', 'NOP2', 'NOP3', 'CHECKSIG ', 'CODESEPARATOR', 'UNKNOWN',
                                 'INVALIDOPCODE', 'SUBSTR', 'LEFT', 'RIGHT', 'PUBKEY', 'DUP2', '10', '11', '16', '1NEGATE', 'RESERVED')]
    words += list(bx.Ops.__members__) + [x[3:] for x in bx.Ops.__members__] + [x.lower() for x in bx.Ops.__members__]
    for v in [0, 1, -1, 15, 16, 17, 127, 128, 129, 255, 256, 32767, 32768, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 21474836470] + \
            [rng.getrandbits(rng.randrange(1, 40)) for _ in range(n // 8)]:
        words += [str(v), str(-v), '0' + str(v), '00' + str(v), '-0' + str(v), '+' + str(v), str(v) + '0', str(v) + 'a', '--' + str(v), str(v) + '-']
    words += ['-1_0', '-1_000', '-_1', '-1_', '1__0', '-+5', '+-5', '-0x1', '-1e1', '-1.0', '-', '--', '-a', '-0', '-00', 'a', 'aa', 'AA', 'aA', 'abc', 'abcg', '0x00', 'x', '[error]', '[ALL]', 'é', '²', '²²', '1²', '-²', 'aé', '0b11', '1_0', '1_000', '1e5',
              '1.0', 'ff', 'fff', '0' * 10, '0' * 11, '9' * 20, '9' * 21, 'deadbeef', 'DEADBEEF', '"aa"', "'aa'", '0,0', 'nan', '_', '1' * 200, '12' * 100 + 'a']
    for w in words:
        add('from_asm', w)
        add('from_asm', 'OP_1 ' + w)
        add('from_asm', w + ' OP_CHECKSIG')
    add('from_asm', '')
    add('from_asm', ' ')
    for _ in range(n):
        s = g.script()
        for dec in (True, False):
            add('to_asm', s.hex(), dec)
        add('asm_round', s.hex())
        s = b''.join(bx.push_item(g.item()) if rng.random() < .7 else bytes([rng.choice([int(x) for x in bx.Ops if x == 80 or x > 96])]) for _ in range(rng.randrange(6)))
        add('asm_round', s.hex())
        s = push(g.sig())
        add('to_asm', s.hex(), True)
        add('to_asm', s.hex(), False)
        ws = [rng.choice(words) if rng.random() < .3 else rng.choice((list(bx.Ops.__members__)[rng.randrange(80)], str(rng.getrandbits(31) - (1 << 30)), g.rb(rng.randrange(1, 40)).hex()))
              for _ in range(rng.randrange(6))]
        add('from_asm', ''.join(w + rng.choice((' ', ' ', '  ', '\t', '\n', '\r\n')) for w in ws))


def cases_C18(g, rng, n, big, add):
    coins = list(COINS)
    for _ in range(2 * n):
        ps = g.shape()
        s = g.noisy(ps) if rng.random() < .6 else b''.join(ps)
        add('classify', s.hex(), rng.choice(coins))
        if rng.random() < .2:
            add('classify', s[:rng.randrange(len(s) + 1)].hex(), rng.choice(coins))
        if rng.random() < .3:
            add('template', s.hex())
    for _ in range(n // 4):
        s = g.script()
        add('classify', s.hex(), rng.choice(coins))
        add('template', s.hex())
        h = g.rb(20 if rng.random() < .9 else rng.choice((0, 19, 21, 32)))
        o = h if rng.random() < .2 else g.rb(20)
        if len(h) != 20:
            o = h
        add('canon_hash', rng.choice(('pubkeyhash', 'scripthash')), h.hex(), rng.choice(coins), o.hex())
        add('canon_key', g.anykey().hex(), rng.choice(coins))
        k = rng.choice((1, 1, 2, 3, 5, 16, 17, 20, rng.randrange(1, 26)) if rng.random() < .97 else (127, 128, 129))
        ks = [g.key() for _ in range(k)]
        if rng.random() < .1:
            ks[rng.randrange(k)] = g.badkey()
        if rng.random() < .3:
            ks[rng.randrange(k)] = rng.choice(ks)
        add('canon_multi', rng.choice((0, 1, k, k + 1, rng.randrange(1, k + 1))), [x.hex() for x in ks], rng.choice(coins))
    add('canon_multi', 0, [], 'Bitcoin')
    add('canon_multi', 1, [], 'Bitcoin')
    # the same script for every coin, in turn
    for _ in range(20):
        ps = g.shape()
        for c in coins:
            add('classify', b''.join(ps).hex(), c)
    for s in ('', '6a', '6a6a', '006a', '51526a4c', '51526a05', '5152ae', '51ae', 'ae', '52ae', '5151ae', '0051ae'):
        for c in coins:
            add('classify', s, c)


if __name__ == '__main__':
    main()
