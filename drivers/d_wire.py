"""C11: packing and stream functions."""
import io
from lib import *
import bitcoinx as bx
from bitcoinx import packing as pk

FIXED = []  # name, width, signed, big
for end in ('le', 'be'):
    for w in (16, 32, 64):
        FIXED.append((f'{end}_uint{w}', w // 8, False, end == 'be'))
FIXED += [('le_int32', 4, True, False), ('le_int64', 8, True, False), ('byte', 1, False, False), ('port', 2, False, True)]


def num(sign, h):
    v = int.from_bytes(bytes.fromhex(h), 'big')
    return -v if sign == '-' else v


def mag(v):
    a = abs(v)
    return ('-' if v < 0 else ''), a.to_bytes((a.bit_length() + 7) // 8, 'big').hex()


@op
def pack(a):
    return outcome(lambda: getattr(bx, 'pack_' + a[5])(num(a[3], a[4])), Exception)


@op
def unpack(a):
    return outcome(lambda: getattr(bx, 'unpack_' + a[4])(bytes.fromhex(a[3]))[0], Exception)


@op
def unpack_from(a):
    return outcome(lambda: getattr(bx, f'unpack_{a[5]}_from')(bytes.fromhex(a[3]), a[4])[0], Exception)


def streamed(data, f):
    s = io.BytesIO(data)
    return outcome(lambda: [f(s.read), s.tell()], Exception)


@op
def read(a):
    return streamed(bytes.fromhex(a[3]), getattr(bx, 'read_' + a[4]))


@op
def varint(a):
    return outcome(lambda: bx.pack_varint(num(*a)), Exception)


@op
def varint_len(a):
    return outcome(lambda: bx.varint_len(num(*a)), ValueError)


@op
def read_varint(a):
    return streamed(bytes.fromhex(a[0]), bx.read_varint)


@op
def varbytes(a):
    return outcome(lambda: bx.pack_varbytes(bytes.fromhex(a[0])), Exception)


@op
def read_varbytes(a):
    return streamed(bytes.fromhex(a[0]), bx.read_varbytes)


@op
def varbytes_big(a):
    import hashlib
    data = bytes([a[0]]) * a[1]
    p = bx.pack_varbytes(data)
    s = io.BytesIO(p + b'tail')
    back = bx.read_varbytes(s.read) == data
    return '[' + ','.join([enc(len(p)), enc(hashlib.sha256(p).digest()), enc(back), enc(s.tell()),
                           outcome(lambda: bx.read_varbytes(io.BytesIO(p[:-1]).read), Exception)]) + ']'


@op
def pack_list(a):
    return outcome(lambda: bx.pack_list([bytes.fromhex(x) for x in a[0]], bx.pack_varbytes), Exception)


@op
def read_list(a):
    return streamed(bytes.fromhex(a[0]), lambda r: bx.read_list(r, bx.read_varbytes))


@op
def read_list_u16(a):
    return streamed(bytes.fromhex(a[0]), lambda r: bx.read_list(r, bx.read_le_uint16))


@op
def list_big(a):
    import hashlib
    p = bx.pack_list([b''] * a[0], bx.pack_varbytes)
    s = io.BytesIO(p + b'tail')
    n = len(bx.read_list(s.read, bx.read_varbytes))
    return enc([len(p), hashlib.sha256(p).digest(), n, s.tell()])


@op
def stream(a):
    parts = [bx.pack_varint(num('', h)) if k == 'n' else bx.pack_varbytes(bytes.fromhex(h)) for k, h in a]
    s = io.BytesIO(b''.join(parts))
    return outcome(lambda: [bx.read_varint(s.read) if k == 'n' else bx.read_varbytes(s.read) for k, _ in a]
                   + [b''.join(parts)], Exception)


@op
def int_bytes(a):
    f = bx.int_to_be_bytes if a[0] else bx.int_to_le_bytes
    v = num(a[2], a[3])
    return outcome(lambda: f(v) if a[1] == -1 else f(v, a[1]), Exception)


@op
def bytes_int(a):
    return outcome(lambda: (bx.be_bytes_to_int if a[0] else bx.le_bytes_to_int)(bytes.fromhex(a[1])))


@op
def hash_to_hex_str(a):
    return outcome(lambda: bx.hash_to_hex_str(bytes.fromhex(a[0])))


@op
def hex_str_to_hash(a):
    return outcome(lambda: bx.hex_str_to_hash(a[0]))


@op
def hash_to_value(a):
    return outcome(lambda: bx.hash_to_value(bytes.fromhex(a[0])))


@op
def hashes(a):
    b, k = bytes.fromhex(a[0]), bytes.fromhex(a[1])
    return outcome(lambda: [bx.sha1(b), bx.sha256(b), bx.sha512(b), bx.double_sha256(b), bx.ripemd160(b), bx.hash160(b),
                            bx.hmac_sha512(k, b), list(bx.hmac_sha512_halves(k, b))])


@op
def unpack_header(a):
    return outcome(lambda: list(bx.unpack_header(bytes.fromhex(a[0]))), Exception)


def main():
    cfg, out = load()
    rng, big = cfg['rng'], cfg['thorough']
    N = 4000 if big else 400
    cases = [(c['op'], c['a']) for c in cfg['cases']]
    add = lambda name, *a: cases.append((name, list(a)))
    rb = lambda n: rng.randbytes(n)
    edges = set()
    for b in (0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256):
        for d in range(-4, 5):
            edges |= {(1 << b) + d, -(1 << b) + d}
    edges |= set(range(-3, 300)) | set(range(0xfff0, 0x10010)) | set(range(0xfffffff0, 0x100000010))
    edges |= {253 * 256 ** k + d for k in range(8) for d in (-1, 0, 1)}
    def some():
        k = rng.randrange(0, 70)
        return rng.choice((1, 1, -1)) * rng.getrandbits(k) if k else 0
    nums = sorted(edges) + [some() for _ in range(N)]
    for v in nums:
        s, m = mag(v)
        for name, w, sg, be in FIXED:
            add('pack', w, sg, be, s, m, name)
        add('varint', s, m)
        add('varint_len', s, m)
        add('int_bytes', rng.random() < .5, rng.choice((-1, -1, 0, 1, 2, 4, 8, 9, 32)), s, m)
        for be in (False, True):
            add('int_bytes', be, -1, s, m)
            n = (abs(v).bit_length() + 7) // 8
            for size in (n - 1, n, n + 1):
                if size >= 0:
                    add('int_bytes', be, size, s, m)
    for name, w, sg, be in FIXED:
        pats = [bytes(w), b'\xff' * w, b'\x80' + bytes(w - 1), bytes(w - 1) + b'\x80', b'\x7f' + b'\xff' * (w - 1),
                b'\xff' * (w - 1) + b'\x7f', bytes(range(1, w + 1))] + [rb(w) for _ in range(N // 8)]
        for p in pats:
            add('unpack', w, sg, be, p.hex(), name)
            for extra in (b'', b'\0', rb(3)):
                if name not in ('byte', 'port'):
                    add('read', w, sg, be, (p + extra).hex(), name)
                    pre = rb(rng.randrange(4))
                    if not name.startswith('_'):
                        add('unpack_from', w, sg, be, (pre + p + extra).hex(), len(pre), name)
        for k in range(w):
            add('unpack', w, sg, be, rb(k).hex(), name)
            if name not in ('byte', 'port'):
                add('read', w, sg, be, rb(k).hex(), name)
                add('unpack_from', w, sg, be, rb(k + 1).hex(), 1, name)
        add('unpack', w, sg, be, rb(w + 1).hex(), name)
    # streams: every marker byte with every shape of continuation
    for first in range(256):
        for k in (0, 1, 2, 3, 4, 7, 8, 9) if first >= 250 or big else (0, 3, 9):
            for body in (bytes(k), b'\xff' * k, rb(k)):
                add('read_varint', (bytes([first]) + body).hex())
        for n in {first - 1, first, first + 1, 0}:
            if 0 <= n and first < 253:
                add('read_varbytes', (bytes([first]) + rb(n)).hex())
    for _ in range(N):
        add('read_varint', rb(rng.randrange(12)).hex())
        b = rb(rng.choice((0, 1, 2, 75, 76, 251, 252, 253, 254, 255, 256, 300, rng.randrange(600))))
        add('varbytes', b.hex())
        form = rng.randrange(4)
        n = len(b)
        pre = bytes([n]) if form == 0 and n < 253 else (b'\xfd' + n.to_bytes(2, 'little') if form <= 1 else
              b'\xfe' + n.to_bytes(4, 'little') if form == 2 else b'\xff' + n.to_bytes(8, 'little'))
        s = pre + b
        add('read_varbytes', s.hex())
        add('read_varbytes', (s + rb(3)).hex())
        add('read_varbytes', s[:rng.randrange(len(s))].hex())
        add('read_varbytes', s[:-1].hex())
        items = [rb(rng.randrange(5)).hex() for _ in range(rng.choice((0, 1, 2, 3, 5, 252, 253, 254) if rng.random() < .2 else (0, 1, 2, 3, 7)))]
        add('pack_list', items)
        cnt = bytes([len(items)]) if len(items) < 253 else b'\xfd' + len(items).to_bytes(2, 'little')
        ls = cnt + b''.join(bytes([len(x) // 2]) + bytes.fromhex(x) for x in items)
        add('read_list', ls.hex())
        add('read_list', (ls + rb(2)).hex())
        add('read_list', ls[:-1].hex())
        add('read_list', ls[:rng.randrange(len(ls))].hex())
        k = rng.randrange(6)
        u = bytes([k]) + rb(2 * k)
        add('read_list_u16', u.hex())
        add('read_list_u16', u[:-1].hex())
        add('read_list_u16', (u + b'\1').hex())
        add('stream', *[['n', mag(rng.getrandbits(rng.choice((1, 8, 16, 17, 32, 33, 64))))[1]] if rng.random() < .5
                        else ['b', rb(rng.choice((0, 1, 4, 252, 253))).hex()] for _ in range(rng.randrange(1, 8))])
        h = rb(rng.choice((0, 1, 20, 32, 32, 32)))
        add('hash_to_hex_str', h.hex())
        add('hex_str_to_hash', h.hex())
        add('hash_to_value', h.hex())
        add('hashes', rb(rng.choice((0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, rng.randrange(300)))).hex(), rb(rng.randrange(140)).hex())
        add('unpack_header', rb(rng.choice((80,) * 8 + (0, 79, 81))).hex())
        for be in (False, True):
            add('bytes_int', be, rb(rng.randrange(40)).hex())
            add('bytes_int', be, (bytes(rng.randrange(3)) + rb(rng.randrange(8)) + bytes(rng.randrange(3))).hex())
    for n in (252, 253, 254, 255, 256, 65534, 65535, 65536, 65537) + tuple(1 << k for k in range(9, 22) if k != 16) + (10000, 100000, 1000000) + (((1 << 22) + 1, (1 << 24) - 1) if big else ()):
        add('varbytes_big', rng.randrange(256), n)
        if n < 70000:
            add('list_big', n)
    run(cases, out, rng)


main()
