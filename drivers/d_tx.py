"""C12 - C14: transactions."""
import io
from lib import *
import lib
import bitcoinx as bx
from bitcoinx import Tx, TxInput, TxOutput, Script, SigHash
from bitcoinx.consts import JSONFlags
from d_script import COINS, Gen, push, mag, num, fromhex


def le(h, signed=False):
    return int.from_bytes(fromhex(h), 'little', signed=signed)


def mk_in(a):
    return TxInput(fromhex(a[0]), le(a[1]), script(fromhex(a[2])), le(a[3]))


def mk_out(a):
    return TxOutput(le(a[0], True), script(fromhex(a[1])))


def mk(a):
    return Tx(le(a[0], True), [mk_in(x) for x in a[1]], [mk_out(x) for x in a[2]], le(a[3]))


def mk_shared(a):
    """As mk, for use where nothing is changed: in every other process equal parts are one object."""
    t = mk(a)
    if lib.KEEPING:
        t.inputs = [t.inputs[a[1].index(x)] for x in a[1]]
        t.outputs = [t.outputs[a[2].index(x)] for x in a[2]]
    return t


def f_in(x):
    must(type(x.script_sig) is Script)
    return [x.prev_hash, x.prev_idx, bytes(x.script_sig), x.sequence]


def f_out(x):
    must(type(x.script_pubkey) is Script)
    return [x.value, bytes(x.script_pubkey)]


def f_tx(t):
    return [t.version, [f_in(x) for x in t.inputs], [f_out(x) for x in t.outputs], t.locktime]


def changed(x):
    """Makes other parts of what was read, which is the reader's own."""
    if isinstance(x, Tx):
        x.version ^= 1
        x.locktime ^= 1
        for y in x.inputs + x.outputs:
            changed(y)
        x.inputs.append(TxInput(bytes(32), 0, Script(b''), 0))
        x.outputs.reverse()
        x.outputs.append(TxOutput(0, Script(b'')))
    elif isinstance(x, TxInput):
        x.prev_hash, x.prev_idx, x.script_sig, x.sequence = bytes(x.prev_hash)[::-1] + b'\1', x.prev_idx ^ 1, Script(b'\1'), x.sequence ^ 1
    else:
        x.value, x.script_pubkey = x.value ^ 1, Script(b'\2')


def read_again(f, text):
    return again(f, lambda x: enc(text(x)), changed)


@op
def serialize(a):
    t = mk_shared(a[0])
    b = t.to_bytes()
    s = io.BytesIO(b + b'\x05tail')
    back = Tx.read(s.read)
    bad = []
    for k in range(len(b)) if len(b) < 1000 else list(range(60)) + list(range(len(b) - 60, len(b))):
        try:
            Tx.from_bytes(b[:k])
            bad.append(k)
        except Exception:
            pass
    return enc([b, t.to_hex(), t.size(), Tx.size_io(t.inputs, t.outputs), t.hash(), t.hex_hash(),
                [[x.to_bytes(), x.to_hex(), x.size()] for x in t.inputs],
                [[x.to_bytes(), x.to_hex(), x.size()] for x in t.outputs],
                back == t and f_tx(back) == f_tx(t), read_again(lambda: Tx.from_bytes(b), f_tx) == t and read_again(lambda: Tx.from_hex(b.hex()), f_tx) == t,
                all(read_again(lambda: TxInput.from_bytes(x.to_bytes()), f_in) == x and read_again(lambda: TxInput.from_hex(x.to_hex()), f_in) == x for x in t.inputs)
                and all(read_again(lambda: TxOutput.from_bytes(x.to_bytes()), f_out) == x and read_again(lambda: TxOutput.from_hex(x.to_hex()), f_out) == x for x in t.outputs),
                s.tell(), bad])


@op
def field(a):
    """A field given any number at all."""
    t, v = mk(a[0]), num(a[2], a[3])
    part = t
    if a[1] in ('idx', 'seq'):
        part = t.inputs[0]
        setattr(part, dict(idx='prev_idx', seq='sequence')[a[1]], v)
    elif a[1] == 'value':
        part = t.outputs[0]
        part.value = v
    else:
        setattr(t, dict(ver='version', lock='locktime')[a[1]], v)
    return '[' + ','.join(outcome(f, Exception) for f in (t.to_bytes, part.to_bytes, t.hash)) + ']'


@op
def big(a):
    n, m, k = a
    t = Tx(1, [TxInput(bytes(32), 0, Script(b'\x51' * k), 0xffffffff) for _ in range(n)], [TxOutput(1, Script(b'\x52' * k)) for _ in range(m)], 0)
    b = t.to_bytes()
    s = io.BytesIO(b + b'tail')
    back = Tx.read(s.read)
    return enc([len(b), t.size(), t.hash(), back == t and back.to_bytes() == b, s.tell()])[:-1] + ',' \
        + outcome(lambda: Tx.from_bytes(b[:-1]), Exception) + ']'


def reading(f, text):
    def g(a):
        s = io.BytesIO(fromhex(a[0]))

        def read():
            s.seek(0)
            return f(s.read)
        return outcome(lambda: [text(read_again(read, text)), s.tell()], Exception)
    return g


OPS['parse'] = reading(Tx.read, f_tx)
OPS['parse_in'] = reading(TxInput.read, f_in)
OPS['parse_out'] = reading(TxOutput.read, f_out)


@op
def equal(a):
    return enc(mk(a[0]) == mk(a[1]))


@op
def size_io(a):
    t = mk_shared(a[0])
    return enc(Tx.size_io(tuple(t.inputs), tuple(t.outputs)))


def ask(t, q):
    kw = {} if q[4] == -1 else dict(sighash=0x41) if q[4] == -2 else dict(sighash=SigHash(q[4]))
    return outcome(lambda: t.signature_hash(q[0], num(q[1], q[2]), Script(fromhex(q[3])), **kw), IndexError, ValueError, TypeError)


@op
def sighash(a):
    t = mk_shared(a[0])
    return '[' + ','.join(ask(t, q) for q in a[1]) + ']'


@op
def history(a):
    t = mk(a[0])
    res = []
    for s in a[1]:
        k = s[0]
        if k == 'hash':
            res.append(ask(t, s[1]))
            continue
        if k == 'view':
            res.append(enc([t.to_bytes(), [[x.to_bytes(), x.size()] for x in t.inputs], [[x.to_bytes(), x.size()] for x in t.outputs]]))
            continue
        if k == 'preds':
            res.append(enc([t.is_final_for_block(num('', s[1]), num('', s[2])), t.are_inputs_final(), [[x.is_final(), x.is_coinbase()] for x in t.inputs],
                            t.total_output_value()]))
            continue
        if k == 'json':
            res.append(enc(again(lambda: t.to_json(flagged(s[1]), COINS[s[2]]))))
            continue
        if k == 'ver':
            t.version = le(s[1], True)
        elif k == 'lock':
            t.locktime = le(s[1])
        elif k == 'in':
            t.inputs[s[1]] = mk_in(s[2])
        elif k == 'seq':
            t.inputs[s[1]].sequence = le(s[2])
        elif k == 'prev':
            t.inputs[s[1]].prev_hash = fromhex(s[2])
        elif k == 'idx':
            t.inputs[s[1]].prev_idx = le(s[2])
        elif k == 'spk':
            t.outputs[s[1]].script_pubkey = Script(fromhex(s[2]))
        elif k == 'script':
            t.inputs[s[1]].script_sig = Script(fromhex(s[2]))
        elif k == 'out':
            t.outputs[s[1]] = mk_out(s[2])
        elif k == 'value':
            t.outputs[s[1]].value = le(s[2], True)
        elif k == 'add_in':
            t.inputs.append(mk_in(s[1]))
        elif k == 'add_out':
            t.outputs.append(mk_out(s[1]))
        elif k == 'pop_in':
            t.inputs.pop()
        else:
            t.outputs.pop()
        res.append(enc([t.hash(), t.size()]))
    return '[' + ','.join(res) + ']'


@op
def sh_parts(a):
    h = SigHash(a[0])
    return enc([h.base, h.anyone_can_pay, h.to_string()])


@op
def final(a):
    t = mk_shared(a[0])
    return enc([t.is_final_for_block(num('', a[1]), num('', a[2])), t.are_inputs_final(), [x.is_final() for x in t.inputs]])


@op
def coinbase(a):
    t = mk_shared(a[0])
    return enc([x.is_coinbase() for x in t.inputs] + [t.is_coinbase()])


@op
def total(a):
    return enc(mk_shared(a[0]).total_output_value())


def flagged(f):
    return JSONFlags(f)


@op
def json(a):
    t = mk_shared(a[0])
    return enc(again(lambda: t.to_json(flagged(a[1]), COINS[a[2]])))


@op
def json_in(a):
    x = mk_in(a[0])
    return enc(again(lambda: x.to_json(flagged(a[1])) if a[2] < 0 else x.to_json(flagged(a[1]), a[2])))


@op
def json_out(a):
    x = mk_out(a[0])
    return enc(again(lambda: x.to_json(flagged(a[1]), COINS[a[2]]) if a[3] < 0 else x.to_json(flagged(a[1]), COINS[a[2]], a[3])))


class TxGen(Gen):
    def u(self, w, *edges):
        """A little-endian number of w bytes."""
        rng = self.rng
        c = rng.randrange(4)
        if c == 0 and edges:
            return rng.choice(edges).to_bytes(w, 'little').hex()
        if c == 1:
            return bytes(rng.choice((0, 255)) for _ in range(w)).hex()
        if c == 2:
            return (rng.getrandbits(rng.randrange(8 * w + 1))).to_bytes(w, 'little').hex()
        return self.rb(w).hex()

    def seq(self):
        return 'ffffffff' if self.rng.random() < .5 else self.u(4, 0, 0xfffffffe, 0xfffffffd, 1 << 31, 1 << 22)

    def blob(self):
        rng = self.rng
        return rng.choice((b'', self.rb(rng.randrange(6)), self.script(), self.rb(rng.choice((75, 107, 252, 253, 254, 300))), push(self.sig()) + push(self.key())))

    def inp(self):
        rng = self.rng
        z = rng.randrange(10)
        h = bytes(32) if z < 2 else self.rb(32) if z < 9 else bytes(31) + b'\1'
        i = 'ffffffff' if rng.random() < .2 else self.u(4, 0, 1, 0xfffffffe, 0xffffffff)
        return [h.hex(), i, self.blob().hex(), self.seq()]

    def outp(self):
        rng = self.rng
        s = self.blob() if rng.random() < .5 else self.noisy(self.shape())
        return [self.u(8, 0, 1, 546, 21 * 10 ** 14, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 32, (1 << 53) + 1), s.hex()]

    def tx(self, lo=0):
        rng = self.rng
        n = rng.choice((0, 1, 1, 1, 2, 2, 3, 5))
        m = rng.choice((0, 1, 1, 1, 2, 2, 3, 5))
        return [self.u(4, 1, 2, 0x7fffffff, 0x80000000), self.alike([self.inp() for _ in range(max(n, lo))]), self.alike([self.outp() for _ in range(m)]), self.lock()]

    def alike(self, parts):
        """Now and then some that are equal, or nearly."""
        rng = self.rng
        if parts and rng.random() < .3:
            for _ in range(rng.choice((1, 1, 2))):
                x = list(rng.choice(parts))
                if rng.random() < .4:
                    k = rng.randrange(len(x))
                    x[k] = (self.inp() if len(x) == 4 else self.outp())[k]
                parts.insert(rng.randrange(len(parts) + 1), x)
        return parts

    def lock(self):
        return self.u(4, 0, 1, 999, 1000, 499999999, 500000000, 500000001, 1 << 31, (1 << 32) - 1, 951782399, 951782400, 951868800, 1709164800, 1735689599, 1735689600, 4107542400)

    def ask(self, t):
        rng = self.rng
        n = len(t[1])
        i = rng.randrange(n) if n and rng.random() < .93 else rng.choice((-1, n, n + 1, -n, -n - 1))
        v = rng.choice((0, 1, 546, 10 ** 8, (1 << 63) - 1, rng.getrandbits(63), rng.getrandbits(20)))
        if rng.random() < .03:
            v = rng.choice((-1, -546))
        sh = rng.choice((1, 2, 3, 0x41, 0x42, 0x43, 0x81, 0x82, 0x83, 0xc1, 0xc2, 0xc3, -1, -1, -2 if rng.random() < .2 else 0x41, 0, 4, 5, 0x1f, 0x22, 0x23, 0x5f, 0x141,
                         0x142, 0x1c3, 0x10041, rng.randrange(256)))
        return [i] + mag(v) + [self.blob().hex(), sh]


def ser(t):
    def vi(n):
        return bytes([n]) if n < 253 else b'\xfd' + n.to_bytes(2, 'little')

    def vb(h):
        return vi(len(h) // 2) + fromhex(h)
    return (fromhex(t[0]) + vi(len(t[1])) + b''.join(fromhex(x[0] + x[1]) + vb(x[2]) + fromhex(x[3]) for x in t[1])
            + vi(len(t[2])) + b''.join(fromhex(x[0]) + vb(x[1]) for x in t[2]) + fromhex(t[3]))


def history_of(g, rng, query):
    """A transaction and steps that change it in place, with questions in between."""
    t = g.tx(1)
    cur = [t[0], list(t[1]), list(t[2]), t[3]]
    be = lambda v: v.to_bytes(8, 'big').hex()

    def ask():
        if query == 'hash':
            return ['hash', g.ask(cur)]
        if query == 'view':
            return ['view']
        if rng.random() < .5:
            return ['json', rng.choice((0, 63, 63, rng.randrange(64))), rng.choice(list(COINS))]
        return ['preds', be(rng.getrandbits(rng.randrange(1, 40))), be(rng.getrandbits(rng.randrange(1, 40)))]
    steps = []
    for _ in range(rng.randrange(2, 12)):
        if rng.random() < .5:
            steps.append(ask())
            continue
        i = rng.randrange(len(cur[1]))
        o = rng.randrange(len(cur[2])) if cur[2] else None
        k = rng.choice(('ver', 'lock', 'in', 'seq', 'script', 'prev', 'idx', 'spk', 'out', 'value', 'add_in', 'add_out', 'pop_in', 'pop_out'))
        if k in ('out', 'value', 'spk', 'pop_out') and o is None or k == 'pop_in' and len(cur[1]) < 2:
            continue
        if rng.random() < .1:       # one more like another, or one made like another
            k, x = (('in', 'add_in'), i) if o is None or rng.random() < .5 else (('out', 'add_out'), o)
            part = rng.choice(t[1 if k[0] == 'in' else 2] or [g.outp()])
            if rng.random() < .5:
                steps.append([k[0], x, part])
            else:
                steps.append([k[1], part])
                cur[1 if k[0] == 'in' else 2].append(0)
        elif k == 'ver':
            steps.append([k, g.u(4, 1, 2)])
        elif k == 'lock':
            steps.append([k, g.lock()])
        elif k == 'in':
            steps.append([k, i, g.inp()])
        elif k == 'seq':
            steps.append([k, i, g.seq()])
        elif k in ('prev', 'idx', 'script'):
            steps.append([k, i, g.inp()[('prev', 'idx', 'script').index(k)]])
        elif k == 'out':
            steps.append([k, o, g.outp()])
        elif k in ('value', 'spk'):
            steps.append([k, o, g.outp()[('value', 'spk').index(k)]])
        elif k == 'add_in':
            steps.append([k, g.inp()])
            cur[1].append(0)
        elif k == 'add_out':
            steps.append([k, g.outp()])
            cur[2].append(0)
        else:
            steps.append([k])
            cur[1 if k == 'pop_in' else 2].pop()
        if rng.random() < .8:
            steps.append(ask())
    return t, steps


def cases_C12(g, rng, n, big, add):
    for _ in range(n // 2):
        t = g.tx()
        add('serialize', t)
        b = ser(t)
        add('parse', b.hex())
        add('parse', (b + g.rb(rng.randrange(4))).hex())
        add('parse', b[:rng.randrange(len(b))].hex())
        for _ in range(3):
            c = bytearray(b)
            k = rng.randrange(min(len(c), 60)) if rng.random() < .5 else rng.randrange(len(c))
            c[k] = rng.choice((0, 1, 2, 252, 253, 254, 255, rng.randrange(256)))
            add('parse', c[:3000].hex())
        u = [t[0], t[1], t[2], t[3]]
        c = rng.randrange(5)
        if c < 2:
            u[3 * c] = g.u(4, 0, 1)
        elif c == 2:
            u[1] = t[1][::-1]
        elif c == 3:
            u[2] = t[2][:-1]
        add('equal', t, u)
        add('size_io', t)
        for f, x in (('parse_in', g.inp()), ('parse_out', g.outp())):
            y = [x] if f == 'parse_in' else []
            s = ser(['', y, [] if y else [x], ''])
            s = s[1:-1] if y else s[2:]
            for z in (s, s + b'\0\1', s[:-1], s[:rng.randrange(len(s))]):
                add(f, z.hex())
        add('parse', g.rb(rng.randrange(80)).hex())
    for _ in range(n // 6):
        add('history', *history_of(g, rng, 'view'))
    for kind in ('ver', 'lock', 'idx', 'seq', 'value'):
        for x in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 100):
            for v in (1 << x, (1 << x) - 1, (1 << x) + 1, -(1 << x), -(1 << x) - 1, 1 - (1 << x), rng.getrandbits(x)):
                t = g.tx(1)
                t[2] = t[2] or [g.outp()]
                add('field', t, kind, *mag(v))
    for k in (0, 1, 251, 252, 253, 254, 255, 256, 65535, 65536):
        add('big', 1, 1, k)
        if k < 300:
            add('big', k, 1, 0)
            add('big', 1, k, 1)
    add('big', 300, 700, 3)
    # counts in every width, also longer than needed, on short streams
    for w in (b'\0', b'\1', b'\xfc', b'\xfd\0\0', b'\xfd\1\0', b'\xfe\1\0\0\0', b'\xff\1' + bytes(7), b'\xfd', b'\xfe\0', b'\xff' * 9):
        t = g.tx(1)
        x = ser([t[0], [t[1][0]], [], t[3]])
        add('parse', (x[:4] + w + x[5:]).hex())
        add('parse', (fromhex(t[0]) + b'\0' + w + fromhex('0000000000000000' + '00' + t[3])).hex())


def many(g, rng, ins, outs, seq=None):
    """A transaction of many inputs and outputs, each small and unlike the others."""
    return [g.u(4), [[g.rb(32).hex(), g.u(4), g.rb(rng.randrange(3)).hex(), seq or g.seq()] for _ in range(ins)],
            [[rng.getrandbits(rng.choice((8, 32, 48))).to_bytes(8, 'little').hex(), g.rb(rng.randrange(4)).hex()] for _ in range(outs)], g.lock()]


def cases_C13(g, rng, n, big, add):
    for ins, outs in ((300, 300), (2, 260), (260, 2), (257, 1), (1, 257), (130, 130)) + ((600, 600), (1000, 3), (3, 1000)) * big:
        t = many(g, rng, ins, outs)
        for i in sorted({k for k in (0, 1, 100, 127, 128, 255, 256, 257, ins - 1, outs - 1, outs, rng.randrange(ins)) if 0 <= k < ins}):
            for h in rng.sample((0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 3, 0x83), 3) + [0x43]:
                add('sighash', t, [[i] + mag(rng.getrandbits(40)) + ['76a9', h]])
    for h in list(range(256)) + [256, 0x141, 0x1c1, 0xffff]:
        if h < 256:
            add('sh_parts', h)
    for _ in range(n // 2):
        t = g.tx(rng.choice((0, 1, 1, 1)))
        add('sighash', t, [g.ask(t) for _ in range(6)])
    t = [g.u(4), [g.inp() for _ in range(3)], [g.outp() for _ in range(2)], g.lock()]
    for h in range(256):
        for i in range(3):
            add('sighash', t, [[i] + mag(5000) + ['76a9', h]])
    for _ in range(n // 3):
        add('history', *history_of(g, rng, 'hash'))


def cases_C14(g, rng, n, big, add):
    def be(v):
        return v.to_bytes(8, 'big').hex()
    edges = [0, 1, 2, 499999999, 500000000, 500000001, 1 << 31, (1 << 32) - 1, 1000, 1600000000]
    for lock in edges + [rng.getrandbits(32) for _ in range(20)]:
        for d in (-1, 0, 1):
            for h, w in ((lock + d, 0), (0, lock + d), (lock + d, lock - d), (lock + d, 1 << 40), (1 << 40, lock + d), (0, 0)):
                for seqs in ([], ['ffffffff'], ['feffffff'], ['ffffffff', '00000000'], ['00000000', 'ffffffff'], ['ffffffff'] * 3):
                    if h >= 0 and w >= 0:
                        add('final', ['01000000', [['00' * 32, '00000000', '', q] for q in seqs], [], lock.to_bytes(4, 'little').hex()], be(h), be(w))
    coins = list(COINS)
    for ins, outs in ((300, 300), (101, 1), (257, 2), (1, 257), (1, 101), (129, 129), (40, 40), (20, 20)) + ((600, 600), (1000, 1), (1, 1000)) * big:
        for late in (None, ins - 1, ins // 2, 0):
            t = many(g, rng, ins, outs, 'ffffffff')
            if late is not None:
                t[1][late][3] = 'feffffff'
            t[3] = (1000).to_bytes(4, 'little').hex()
            add('final', t, be(1000), be(5))
            add('final', t, be(1001), be(5))
            add('total', t)
            add('coinbase', t)
            if ins < 300 and outs < 300 and late is None:
                add('json', t, rng.choice((0, 63)), rng.choice(coins))
    for _ in range(n // 2):
        t = g.tx(rng.choice((0, 1, 1)))
        if t[1]:
            add('coinbase', t)
        add('total', t)
        add('final', t, be(rng.getrandbits(rng.randrange(1, 40))), be(rng.getrandbits(rng.randrange(1, 40))))
        add('json', t, rng.randrange(64), rng.choice(coins))
        add('json', t, rng.choice((0, 63, 31)), rng.choice(coins))
        add('json_in', g.inp(), rng.randrange(64), rng.choice((-1, 0, 1, 7)))
        add('json_out', g.outp(), rng.randrange(64), rng.choice(coins), rng.choice((-1, 0, 1, 7)))
        if rng.random() < .4:
            add('json_in', ['00' * 32, 'ffffffff', rng.choice((b'', 'é中\U0001f600/x'.encode(), g.rb(rng.randrange(20)), b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xed\xa0\x80',
                            b'\xf8\x88\x80\x80\x80', b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xe1\x80A', b'\0\n"\\,]}')).hex(), 'ffffffff'], rng.randrange(64), rng.choice((-1, 0)))
    for _ in range(n // 6):
        add('history', *history_of(g, rng, 'state'))
    one = g.tx(1)
    two = [one[0], [['00' * 32, 'ffffffff', '03abcdef', 'ffffffff'], g.inp()], [g.outp(), g.outp()], '00000000']
    for f in range(64):
        for t in (one, two):
            add('json', t, f, coins[f % 4])
    for lock in edges + list(range(996, 1003)) + [999999, 1000000, 100000000, 951782399, 951782400, 951868799, 951868800, 1709164799, 1709164800, 1709251199, 1709251200,
                                                  1735689599, 1735689600, 4107542399, 4107542400, 978307199, 978307200] + [rng.getrandbits(32) for _ in range(60)]:
        add('json', ['01000000', [], [], lock.to_bytes(4, 'little').hex()], 8, 'Bitcoin')
    for _ in range(60):
        add('json_out', ['00' * 8, g.noisy(g.shape()).hex()], 16, rng.choice(coins), -1)
    for k in range(6):
        t = ['01000000', [], [[rng.choice(((1 << 63) - 1, 1, 1 << 63, (1 << 64) - 1)).to_bytes(8, 'little').hex(), ''] for _ in range(8)], '00000000']
        add('total', t)


def main():
    cfg, out = load()
    rng, big, pid = cfg['rng'], cfg['thorough'], cfg['pid']
    cases = [(c['op'], c['a']) for c in cfg['cases']]
    globals()['cases_' + pid](TxGen(rng), rng, 12000 if big else 1500, big, lambda name, *a: cases.append((name, list(a))))
    run(cases, out, rng)


main()
