"""C28 BIP39 mnemonics, C29 Electrum seeds."""
import os

# The source of randomness is replaced before anything else can take a copy of it
_real = os.urandom
ENTROPY = [None, None]      # forced bytes, generator of the rest


def urandom(n):
    if ENTROPY[1] is None:
        return _real(n)
    f, ENTROPY[0] = ENTROPY[0], None
    if f is not None:
        return f(n)
    return ENTROPY[1].randbytes(n)


os.urandom = urandom

import hashlib, json, subprocess, unicodedata
from lib import *
import random
import bitcoinx as bx
from bitcoinx import BIP39Mnemonic, ElectrumMnemonic, Wordlists

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'wordlists.json'), encoding='utf-8'))
LISTS = ('english.txt', 'spanish.txt', 'japanese.txt', 'chinese_simplified.txt')
OLD = SPEC['electrum_old.txt']


def force(how):
    """How the entropy begins: zeros, ones, one, top, half or random:<seed>."""
    kind, _, seed = how.partition(':')
    ENTROPY[1] = random.Random('words' + how)
    ENTROPY[0] = {'zeros': lambda n: bytes(n), 'ones': lambda n: b'\xff' * n, 'one': lambda n: bytes(n - 1) + b'\1',
                  'top': lambda n: b'\x80' + bytes(n - 1), 'half': lambda n: b'\x7f' + b'\xff' * (n - 1),
                  'low': lambda n: bytes(n // 2) + b'\xff' * (n - n // 2), 'random': None}[kind]


def listing(segs):
    if len(segs) == 1 and segs[0][1] == 1 and segs[0][2] == len(SPEC[segs[0][0]]):     # the very object the library keeps
        return Wordlists.original_electrum_wordlist() if segs[0][0] == 'electrum_old.txt' else Wordlists.bip39_wordlist(segs[0][0])
    res = []
    for name, first, last in segs:
        res += (Wordlists.original_electrum_wordlist() if name == 'electrum_old.txt' else Wordlists.bip39_wordlist(name))[first - 1:last]
    return res


def speclist(segs):
    return [w for name, first, last in segs for w in SPEC[name][first - 1:last]]


@op
def wordlist(a):
    if a[1]:    # in a process with another locale
        f = 'original_electrum_wordlist()' if a[0] == 'electrum_old.txt' else f'bip39_wordlist({a[0]!r})'
        code = f"import hashlib, bitcoinx as b; l = b.Wordlists.{f}; print(len(l), hashlib.sha256(' '.join(l).encode()).hexdigest())"
        env = dict(os.environ, PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LC_ALL='C', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, cwd='/')
        if r.returncode:
            return '!!' + r.stderr.strip().split('\n')[-1].split(':')[0]
        n, h = r.stdout.split()
        return enc([int(n), bytes.fromhex(h)])
    if a[0] == 'electrum_old.txt':
        w = Wordlists.original_electrum_wordlist()
    else:
        w = Wordlists.bip39_wordlist(a[0])
    return enc([len(w), hashlib.sha256(' '.join(w).encode()).digest()])


@op
def norm39(a):
    return enc(BIP39Mnemonic.normalize(a[0]))


@op
def seed39(a):
    return enc(BIP39Mnemonic.to_seed(a[0], a[1]))


@op
def valid39(a):
    try:
        return enc(BIP39Mnemonic.is_valid(a[0], listing(a[1])))
    except BIP39Mnemonic.BadWords as e:
        return '!BadWords' + enc(e.args[0])
    except ValueError:
        return '!ValueError'


@op
def gen39(a):
    force(a[2])
    words = listing(a[0])
    args = () if a[1] == 128 and a[2] != 'ones' else (a[1],)
    return outcome(lambda: BIP39Mnemonic.generate(words, *args), ValueError)


@op
def old_enc(a):
    def f():
        t = ElectrumMnemonic.hex_seed_to_old(a[0])
        return [t, ElectrumMnemonic.old_to_hex_seed(t), ElectrumMnemonic.is_valid_old(t)]
    return outcome(f, ValueError)


@op
def old_dec(a):
    return outcome(lambda: ElectrumMnemonic.old_to_hex_seed(a[0]), ValueError)


@op
def old_valid(a):
    return enc(ElectrumMnemonic.is_valid_old(a[0]))


@op
def new_valid(a):
    return enc(ElectrumMnemonic.is_valid_new(a[0], a[1]))


@op
def norm_e(a):
    return enc([ElectrumMnemonic.normalize_new(a[0]), ElectrumMnemonic.normalize_old(a[0])])


@op
def gen_old(a):
    force(a[1])
    kw = {} if a[0] == 12 and a[1] != 'ones' else {'word_count': a[0]}
    return outcome(lambda: ElectrumMnemonic.generate_old_seed(**kw), ValueError)


@op
def gen_new(a):
    force(a[4])
    words = listing(a[0])
    kw = {'prefix': a[1], 'bits': a[2], 'skip_old': a[3]}
    kw = {k: v for k, v in kw.items() if v != {'prefix': '01', 'bits': 132, 'skip_old': True}[k] or a[4] == 'top'}   # defaults are not given
    return outcome(lambda: ElectrumMnemonic.generate_new(words, **kw), ValueError)


# ------------------------------------------------------------------ inputs
SPACES = (' ', '  ', '\t', '\n', ' \r\n ', '\u3000', '\xa0', '\u2003', '\x0b\x0c')


def restyle(rng, t):
    """The same words with other spacing, case and composition."""
    words = t.split(' ')
    style = rng.randrange(6)
    if style == 0:
        t = rng.choice(SPACES).join(words)
    elif style == 1:
        t = ''.join(w + rng.choice(SPACES) for w in words)
    elif style == 2:
        t = rng.choice(SPACES) + t + rng.choice(SPACES)
    elif style == 3:
        t = t.upper()
    elif style == 4:
        t = ' '.join(w.capitalize() if rng.random() < .5 else w for w in words)
    if rng.random() < .5:
        t = unicodedata.normalize(rng.choice(('NFC', 'NFKC', 'NFD', 'NFKD')), t)
    return t


def encode39(entropy, words):
    cs = len(entropy) // 4
    bits = ''.join(f'{b:08b}' for b in entropy) + ''.join(f'{b:08b}' for b in hashlib.sha256(entropy).digest())[:cs]
    return [words[int(bits[k:k + 11], 2)] for k in range(0, len(bits), 11)]


def assigned(c):
    """Assigned long enough ago for every Unicode library to agree on its properties."""
    return unicodedata.ucd_3_2_0.category(c) not in ('Cn', 'Cs', 'Co')


def decomposing(rng, thorough):
    every = [c for c in map(chr, range(128, 0x30000)) if assigned(c) and unicodedata.normalize('NFKD', c) != c]
    tricky = [c for c in every if unicodedata.normalize('NFKD', c.lower()) != unicodedata.normalize('NFKD', c).lower()
              or unicodedata.normalize('NFKD', c).split() != [unicodedata.normalize('NFKD', c)]]
    if not thorough:
        every = rng.sample(every, 1500)
    return tricky + every


def styled(letter):
    """Other characters that are this letter when decomposed."""
    return [c for c in map(chr, range(128, 0x20000)) if assigned(c) and unicodedata.normalize('NFKD', c) == letter][:40]


def cases_c28(rng, thorough):
    n = 8 if thorough else 2
    for f in LISTS + ('electrum_old.txt',):
        yield 'wordlist', [f, False]
        yield 'wordlist', [f, True]
    full = {f: [[f, 1, 2048]] for f in LISTS}
    sizes = (16, 20, 24, 28, 32)
    for f in LISTS:
        words = SPEC[f]
        for how in ['zeros', 'ones', 'one', 'top', 'half', 'low'] + [f'random:{rng.random()}' for _ in range(5 * n)]:
            for bits in (128, 160, 192, 224, 256):
                yield 'gen39', [full[f], bits, how]
        for bits in (0, 1, 32, 64, 96, 127, 129, 136, 144, 159, 161, 255, 257, 288, 320, 512, 2048, -128, 12, 24):
            yield 'gen39', [full[f], bits, 'random:1']
        for size in sizes:
            for e in [bytes(size), b'\xff' * size, b'\0' * (size - 1) + b'\1', b'\x80' + bytes(size - 1)] + [rng.randbytes(size) for _ in range(5 * n)]:
                ws = encode39(e, words)
                t = ' '.join(ws)
                yield 'valid39', [t, full[f]]
                for _ in range(2):
                    yield 'valid39', [restyle(rng, t), full[f]]
                    yield 'norm39', [restyle(rng, t)]
                # other checksums: every value of the last word's checksum bits
                last = words.index(ws[-1])
                cs = size // 4
                for k in range(1 << cs) if cs <= 4 or rng.random() < .1 else rng.sample(range(1 << cs), 6):
                    yield 'valid39', [' '.join(ws[:-1] + [words[last >> cs << cs | k]]), full[f]]
                for _ in range(3):
                    x = ws[:]
                    x[rng.randrange(len(x))] = rng.choice(words)
                    yield 'valid39', [' '.join(x), full[f]]
                x = ws[:]
                j, k = rng.randrange(len(x)), rng.randrange(len(x))
                x[j], x[k] = x[k], x[j]
                yield 'valid39', [' '.join(x), full[f]]
                for x in (ws[:-1], ws[1:], ws + [ws[0]], ws + ws, ws[:3], ws[::-1], ws[:-3], ws + ws[:3]):
                    yield 'valid39', [' '.join(x), full[f]]
                # unlisted words
                for bad in (['zzz'], ['zzz', 'qqq', 'zzz'], [words[5] + 'x'], [words[5][:-1]], ['\xe9'], ['1'], ['-'], [SPEC['electrum_old.txt'][3], 'a']):
                    x = ws[:]
                    for k, w in zip(sorted(rng.sample(range(len(x)), len(bad))), bad):
                        x[k] = w
                    yield 'valid39', [' '.join(x), full[f]]
                    yield 'valid39', [' '.join(x + [ws[0]]), full[f]]
        # a mnemonic in another list's words
        for g in LISTS:
            yield 'valid39', [' '.join(encode39(rng.randbytes(16), words)), full[g]]
        # every last word
        ws = encode39(rng.randbytes(rng.choice(sizes)), words)
        for w in words if thorough or f == 'english.txt' else rng.sample(words, 100):
            yield 'valid39', [' '.join(ws[:-1] + [w]), full[f]]
        # repeated words
        for w in rng.sample(words, 40 * n):
            for count in (12, 15, 18, 21, 24):
                yield 'valid39', [' '.join([w] * count), full[f]]
        for count in range(0, 40):
            yield 'valid39', [' '.join(rng.choice(words) for _ in range(count)), full[f]]
            yield 'valid39', [' '.join([words[0]] * count), full[f]]
    # lists that are too short, too long or shuffled
    t = ' '.join(encode39(rng.randbytes(16), SPEC['english.txt']))
    for segs in ([['english.txt', 1, 2047]], [['english.txt', 2, 2048]], [['english.txt', 1, 2048], ['spanish.txt', 1, 1]], [['english.txt', 1, 1]],
                 [['english.txt', 1, 2048], ['english.txt', 1, 2048]], [], [['electrum_old.txt', 1, 1626]]):
        yield 'valid39', [t, segs]
        yield 'valid39', ['zzz', segs]
        yield 'gen39', [segs, 128, 'random:2']
        yield 'gen39', [segs, 100, 'random:2']
    mixed = [['english.txt', 1025, 2048], ['japanese.txt', 1, 1024]]
    for _ in range(10 * n):
        yield 'valid39', [' '.join(encode39(rng.randbytes(rng.choice(sizes)), speclist(mixed))), mixed]
        yield 'gen39', [mixed, rng.choice((128, 160, 192, 224, 256)), f'random:{rng.random()}']
        yield 'valid39', [t, mixed]
    # lists that share some words with others, at other places
    alike = [[['english.txt', 1, 1], ['english.txt', 1001, 2047], ['english.txt', 2, 1000], ['english.txt', 2048, 2048]],
             [['english.txt', 1, 1], ['japanese.txt', 2, 2047], ['english.txt', 2048, 2048]],
             [['english.txt', 1, 1024], ['spanish.txt', 1025, 2048]], [['english.txt', 1025, 2048], ['english.txt', 1, 1024]],
             [['english.txt', 2, 2048], ['english.txt', 1, 1]], [['japanese.txt', 1, 1], ['english.txt', 2, 2047], ['japanese.txt', 2048, 2048]]]
    for segs in alike * n:
        for other in (segs, full['english.txt'], rng.choice(alike)):
            ws = encode39(rng.randbytes(rng.choice(sizes)), speclist(segs))
            yield 'valid39', [' '.join(ws), other]
            yield 'valid39', [' '.join(ws), segs]
            yield 'gen39', [other, rng.choice((128, 160, 192, 224, 256)), f'random:{rng.random()}']
    # characters that decompose
    chars = decomposing(rng, thorough)
    for k in range(0, len(chars), 24):
        yield 'norm39', [''.join(chars[k:k + 24])]
    for c in rng.sample(chars, 20 * n):
        yield 'seed39', [c, rng.choice(chars)]
    for k in range(65, 91):
        for c in styled(chr(k)):
            w = [x for x in SPEC['english.txt'] if x[0] == chr(k + 32)]
            if w:
                j = SPEC['english.txt'].index(w[0])
                ws = next(v for v in iter(lambda: encode39(rng.randbytes(16), SPEC['english.txt']), 0) if any(x[0] == chr(k + 32) for x in v)) if k != 88 else None
                if ws:
                    j = next(j for j, x in enumerate(ws) if x[0] == chr(k + 32))
                    ws[j] = c + ws[j][1:]
                    yield 'valid39', [' '.join(ws), full['english.txt']]
    # text of any kind
    samples = ['', ' ', 'A', ' a  b ', 'a\u3000b', '\ufb01', '\u1e9b\u0323', '\xc5ngstr\xf6m', '\uac00\ub098', '\u30ac\u30ae', '\uff76\uff9e', '\u2126', '\u212b', 'a\u200bb', '\xbd',
               '\u0130', 'DZ \u01c4', 'a\x1cb\x1fc', 'a\x85b', '\u1680x', '\u2028y\u2029', 'na\xefve  caf\xe9', 'NA\xcfVE\tCAF\xc9', '\u3042\u3044 \u304b\u3099', '\u304c', 'x' * 200]
    samples += [restyle(rng, ' '.join(rng.choice(SPEC[rng.choice(LISTS)]) for _ in range(rng.randrange(1, 26)))) for _ in range(20 * n)]
    for s in samples:
        yield 'norm39', [s]
        yield 'seed39', [s, rng.choice(samples)]
        yield 'seed39', [s, '']
        yield 'seed39', ['legal winner thank year', s]


def old_encode(h):
    res, n = [], 1626
    for k in range(0, len(h), 8):
        v = int(h[k:k + 8], 16)
        a, v = v % n, v // n
        b = (v % n + a) % n
        c = (v // n % n + b) % n
        res += [OLD[a], OLD[b], OLD[c]]
    return res


def cases_c29(rng, thorough):
    n = 8 if thorough else 2
    N = 1626
    edge = ['00000000', 'ffffffff', '00000001', '80000000', '7fffffff', 'fffffffe'] + [f'{v:08x}' for v in
            (N - 1, N, N + 1, N * N - 1, N * N, N * N + 1, 2 * N * N - 1, (N - 1) * N, N * N * 1624, N * N * 1624 - 1, N * N * 1623 + N - 1)]
    seeds = []
    for chunks in (4, 8):
        for x in edge:
            seeds.append(x * chunks)
            for k in range(chunks):
                seeds.append('12345678' * k + x + '9abcdef0' * (chunks - k - 1))
        for _ in range(100 * n):
            seeds.append(''.join(rng.choice(edge) if rng.random() < .3 else rng.randbytes(4).hex() for _ in range(chunks)))
    for h in seeds:
        yield 'old_enc', [h]
        if rng.random() < .2:
            yield 'old_enc', [h.upper()]
            yield 'old_valid', [h]
            yield 'old_valid', [h.upper()]
            for x in (h[:-1], h[:-2], h + '0', h + '00', h[1:], h[:-1] + 'g', 'g' + h[1:], h[:-8], h + '00000000', h * 2, h[:15] + 'z' + h[16:]):
                yield 'old_enc', [x]
                yield 'old_valid', [x]
        if rng.random() < .3:      # text of the right length that is no hex, though its pieces may pass for numbers
            for piece in ('0x', '0X', '+', '-', ' ', '\t', '\n', '_', '\u0661', '\uff11', '0b', '\xb2', '\x00'):
                for k in (0, 8 * rng.randrange(len(h) // 8), 8 * rng.randrange(len(h) // 8) + rng.randrange(8)):
                    x = h[:k] + piece + h[k + len(piece):] if k + len(piece) <= len(h) else h
                    yield 'old_enc', [x]
                    yield 'old_enc', [x[:k] + x[k + len(piece):k + 8] + piece + x[k + 8:]]
                    if not any(c.isspace() for c in x):
                        yield 'old_valid', [x]
        ws = old_encode(h)
        t = ' '.join(ws)
        yield 'old_dec', [t]
        if rng.random() < .3:
            yield 'old_valid', [t]
            u = restyle(rng, t)
            yield 'old_dec', [u]
            yield 'old_valid', [u]
            yield 'norm_e', [u]
            for x in (ws[:-1], ws + [ws[0]], ws[:3], ws[3:], ws + ws, ws[:-3], ws[::-1], ws[:12] + ws[:12], ws[:-1] + ['zzz'], ['zzz'] + ws[1:], ws[:-1] + [ws[-1] + 's'], ws + ws[:3], ws[:6]):
                yield 'old_dec', [' '.join(x)]
                yield 'old_valid', [' '.join(x)]
    # triples around the limit: 2^32 = q N^2 + ..., so large second differences decide
    top = []
    for v in [2 ** 32 + d for d in list(range(-3, 4)) + [N - 1, N, N * N - 1]] + [N ** 3 - 1, N ** 3 - N, N ** 3 - N * N] + [rng.randrange(2 ** 32, N ** 3) for _ in range(10 * n)]:
        if v < N ** 3:
            a = v % N
            b = (v // N % N + a) % N
            c = (v // N // N + b) % N
            top.append([OLD[a], OLD[b], OLD[c]])
    for x in top:
        for chunks in (4, 8):
            for k in range(chunks):
                ws = [w for j in range(chunks) for w in (x if j == k else old_encode(rng.randbytes(4).hex()))]
                yield 'old_dec', [' '.join(ws)]
                yield 'old_valid', [' '.join(ws)]
    for _ in range(200 * n):
        ws = [rng.choice(OLD) for _ in range(rng.choice((12, 24)))]
        yield 'old_dec', [' '.join(ws)]
        yield 'old_valid', [' '.join(ws)]
    for k in range(0, 40):
        yield 'old_dec', [' '.join([OLD[0]] * k)]
        yield 'old_valid', [' '.join(rng.choice(OLD) for _ in range(k))]
        yield 'old_valid', ['ab' * k]
        yield 'old_valid', ['a' * k]
        yield 'gen_old', [k, 'random:1']
    for how in ['zeros', 'ones', 'one', 'top', 'low'] + [f'random:{rng.random()}' for _ in range(5 * n)]:
        for k in (12, 24):
            yield 'gen_old', [k, how]
    # new style
    english = [['english.txt', 1, 2048]]
    texts = ['', ' ', 'a', 'x' * 300, 'NA\xcfVE caf\xe9', '\u304c', '\u304b\u3099', '\ufb01', 'a  b', ' a b ', 'A B']
    for f in LISTS:
        for _ in range(20 * n):
            t = ' '.join(rng.choice(SPEC[f]) for _ in range(rng.randrange(1, 26)))
            texts += [t, unicodedata.normalize('NFC', t), t.upper() if f == 'english.txt' else t]
    chars = decomposing(rng, thorough)
    texts += [''.join(chars[k:k + 16]) for k in range(0, len(chars), 16)] + [' '.join(rng.sample(chars, 5)) for _ in range(20 * n)]
    for t in texts:
        h = __import__('hmac').new(b'Seed version', unicodedata.normalize('NFKD', t).lower().encode(), 'sha512').hexdigest()
        for k in (0, 1, 2, 3, 4, 127, 128, rng.randrange(5, 127)):
            yield 'new_valid', [t, h[:k]]
        yield 'new_valid', [t, h[1:3]]
        yield 'new_valid', [t, h + '0']
        yield 'new_valid', [t, h[:2].upper() + 'X']
        yield 'new_valid', [t, f'{int(h[:2], 16) ^ 1:02x}']
        yield 'new_valid', [t, h[0] + f'{int(h[1], 16) ^ 8:x}']
        yield 'norm_e', [t]
        yield 'norm_e', [restyle(rng, t)]
    for how in ['zeros', 'ones', 'one', 'top', 'half', 'low'] + [f'random:{rng.random()}' for _ in range(10 * n)]:
        for prefix, bits in (('01', 132), ('100', 132), ('', 132), ('0', 133), ('f', 143), ('01', 144), ('', 256), ('a', 264), ('7', 265), ('', rng.randrange(132, 400))):
            if prefix == '100' and not thorough and rng.random() < .6:
                continue
            segs = rng.choice([english, english, [['spanish.txt', 1, 2048]], [['japanese.txt', 1, 2048]], english + [['japanese.txt', 1, 2048]],
                               english + [['electrum_old.txt', 1, 1000]], english + [['spanish.txt', 1, 1]]])
            yield 'gen_new', [segs, prefix, bits, rng.random() < .5, how]
    # mnemonics that are often also old seeds
    for k in range(30 * n):
        for bits in (132, 264, 253):
            segs = [['electrum_old.txt', 1, 1626], ['electrum_old.txt', 1, 400], ['english.txt', 1, 22 + rng.choice((0, 0, 1, 300))]]
            yield 'gen_new', [segs, rng.choice(['', 'b', '01']), bits, k % 3 > 0, f'random:{rng.random()}']
    for segs in ([], [['english.txt', 1, 2047]], [['english.txt', 1, 100]], english):
        for bits in (0, 1, 128, 131, 132):
            yield 'gen_new', [segs, '', bits, True, 'random:3']


if __name__ == '__main__':
    cfg, out = load()
    gen = {'C28': cases_c28, 'C29': cases_c29}[cfg['pid']]
    run(gen(cfg['rng'], cfg['thorough']), out, cfg['rng'])
