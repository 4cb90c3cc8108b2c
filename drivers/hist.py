"""Histories of the real Headers class, recorded as one JSON line each for spec/J_Headers.tla."""
import hashlib, mmap, os, random, resource, shutil, signal, struct, sys, tempfile

from field import FIELD, _sha256
from lib import on_alarm, Timeout
import bitcoinx as bx

LIBRARY = os.path.dirname(bx.__file__)
EASY = {0: 0x207fffff, 1: 0x203fffff, 2: 0x201fffff, 3: 0x200fffff, 4: 0x1f7fffff}


def dsha(b):
    return _sha256(_sha256(b).digest()).digest()


def target_of(bits):
    """Only for valid bits of the forms used here."""
    e, m = bits >> 24, bits & 0xffffff
    return m << 8 * (e - 3) if e >= 3 else m >> 8 * (3 - e)


def be(n):
    return n.to_bytes((n.bit_length() + 7) // 8, 'big').hex()


def raw_header(prev, merkle, ts, bits, nonce, version=1):
    return struct.pack('<i', version) + prev + merkle + struct.pack('<III', ts, bits, nonce)


class FieldCoin(bx.Coin):
    """Its header hash is the merkle root field, so hashes can be chosen."""
    def header_hash(self, raw_header):
        return bytes(raw_header[36:68])


class SmallCache(bx.Headers):
    max_cache_size = 4


def rule_table(table):
    return lambda headers, chain, height, timestamp=None: table[timestamp % len(table)]


def rule_ancestor(table):
    def rule(headers, chain, height, timestamp=None):
        return table[(timestamp + 3 * headers.header_at_height(chain, height - 2).timestamp) % len(table)]
    return rule


REAL = {'mainnet': bx.Bitcoin, 'testnet': bx.BitcoinTestnet, 'scaling': bx.BitcoinScalingTestnet}


class Hist:
    def __init__(self, work, rng, *, cph=0, rule='table', table=(0x207fffff,), gbits=0x207fffff, prior=0, fieldhash=False,
                 cp_raw=None, coin=None, cache=None, path=None, open_=True, reserved=8):
        self.rng = rng
        Hist.current = self
        FIELD.clear()
        FIELD['on'] = fieldhash
        self.dir = tempfile.mkdtemp(prefix='h_', dir=work)
        self.path = path or os.path.join(self.dir, 'headers')
        self.table, self.rule, self.fieldhash = list(table), rule, fieldhash
        req = {'table': rule_table, 'ancestor': rule_ancestor}.get(rule)
        req = req(self.table) if req else REAL[rule].required_bits
        g = raw_header(bytes(32), rng.randbytes(32), 1300000000, gbits, 1)
        if coin is None:
            coin = (FieldCoin if fieldhash else bx.Coin)('verification coin', g.hex(), req, 0, 5, 0x80, b'\1\2\3\4', b'\4\3\2\1', 'vf')
        self.coin, self.gbits = coin, coin.genesis_bits
        self.hdrs, self.ev, self.by_hash, self.raws, self.by_raw = [], [], {}, [], {}
        self.ts0 = 1400000000
        if cp_raw is None:
            cp_raw = raw_header(bytes(32) if cph == 0 else rng.randbytes(32), rng.randbytes(32), self.ts0, self.table[0], rng.getrandbits(32))
        self.cph, self.prior = cph, prior
        self.cp = bx.CheckPoint(cp_raw, cph, prior)
        self.ncp = self.add(cp_raw, -1)
        self.cls = SmallCache if cache == 4 else bx.Headers
        if cache is not None and cache != 4:
            self.cls = type('SizedCache', (bx.Headers,), dict(max_cache_size=cache))
        self.first = (self.ncp, cph, prior)
        self.parent = {self.ncp: 0}
        self.reserved = reserved
        self.children = {}
        self.headers = None
        if open_:
            self.headers = self.open()

    def open(self):
        return self.cls.from_file(self.coin, self.path, self.cp)

    # -- the table of headers ---------------------------------------------------
    def hash(self, raw):
        return bytes(raw[36:68]) if self.fieldhash else dsha(raw)

    def add(self, raw, parent):
        """parent: number of the header it follows, 0 none in the table, -1 irrelevant"""
        self.hdrs.append([raw.hex(), parent])
        self.raws.append(raw)
        k = len(self.hdrs)
        self.by_hash[self.hash(raw)] = k
        self.by_raw[raw] = k
        return k

    def mine(self, parent, bits, ts, ok=True, prev=None, low=None):
        """A new header following header number `parent` (or hash prev), meeting its target iff ok."""
        prev = prev if prev is not None else self.hash(self.raws[parent - 1])
        target = target_of(bits)
        rng = self.rng
        if self.fieldhash:
            v = rng.randrange(0, target + 1) if ok else rng.randrange(target + 1, 1 << 256)
            raw = raw_header(prev, v.to_bytes(32, 'little'), ts, bits, rng.getrandbits(32))
        else:
            merkle = rng.randbytes(32)
            nonce = rng.getrandbits(31)
            while True:
                raw = raw_header(prev, merkle, ts, bits, nonce)
                if (int.from_bytes(dsha(raw), 'little') <= target) == ok:
                    break
                nonce += 1
        return self.add(raw, parent if prev == self.hash(self.raws[parent - 1]) else 0)

    # -- texts ----------------------------------------------------------------
    def hdr(self, header, raw=None):
        """number@height of a Header object, after checking that all its fields are those of its raw form."""
        try:
            k = self.by_raw.get(bytes(header.raw), 0)
            f = struct.unpack('<i32s32s3I', bytes(header.raw))
            if (header.version, header.prev_hash, header.merkle_root, header.timestamp, header.bits, header.nonce) != f:
                return f'wrong fields {k}'
            if header.hash != self.hash(header.raw):
                return f'wrong hash {k}'
            if raw is not None and bytes(raw) != bytes(header.raw):
                return f'raw differs {k}'
            return f'{k}@{header.height}'
        except (AttributeError, TypeError, struct.error) as e:
            return f'bad header {type(e).__name__}'

    def cidx(self, chain):
        for n, c in enumerate(self.headers.chains(), 1):
            if c is chain:
                return n
        return 0 if chain is None else '?'

    def chains_text(self, headers=None):
        headers = headers or self.headers
        chains = headers.chains()
        pos = {id(c): n for n, c in enumerate(chains, 1)}
        out = []
        if headers.chain_count() != len(chains):
            out.append('count differs')
        for c in chains:
            k = self.hdr(c.tip).split('@')
            tip = k[0] if k[-1] == str(c.height) else 'tip ' + '@'.join(k)
            out.append(f'[{0 if c.parent is None else pos.get(id(c.parent), "?")},{c.first_height},{c.height},{tip}]')
        return ''.join(out)

    def work_text(self, headers=None):
        headers = headers or self.headers
        lc = headers.longest_chain()
        return ','.join(str(c.work) for c in headers.chains()) + ';' + \
            str(next((n for n, c in enumerate(headers.chains(), 1) if c is lc), '?'))

    def file_list(self, lo=0, path=None):
        with open(path or self.path, 'rb') as f:
            data = f.read()
        size, version, count = struct.unpack('<HHI', data[:8])
        slots = [data[size + 80 * n: size + 80 * n + 80] for n in range(lo, count)]
        return size, version, count, ','.join(str(self.by_raw.get(s, 0 if s in (b'', bytes(80)) else '?')) for s in slots)

    def stored_text(self, path=None):
        return self.file_list(self.cph, path)[3]

    def full_text(self, headers=None, path=None):
        headers = headers or self.headers
        headers.flush()
        return ';'.join([str(len(headers)), self.chains_text(headers), self.work_text(headers), self.stored_text(path)])

    # -- events -----------------------------------------------------------------
    def rec(self, name, args, f):
        signal.setitimer(signal.ITIMER_REAL, 120)
        try:
            r = f()
        except Timeout:
            r = '!timeout'
        except bx.MissingHeader:
            r = '!MissingHeader'
        except bx.IncorrectBits as e:
            r = f'!IncorrectBits {e.required_bits}'
        except bx.InsufficientPoW:
            r = '!InsufficientPoW'
        except ValueError:
            r = '!ValueError'
        except TypeError:
            r = '!TypeError'
        except Exception as e:
            r = '!!' + type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.ev.append([name, *args, r])
        return r

    def chain(self, c):
        return self.headers.chains()[c - 1]

    def nchains(self):
        return len(self.headers.chains())

    def found(self, pair):
        return f'{self.hdr(pair[0])}:{self.cidx(pair[1])}'

    def connect(self, k):
        r = self.rec('c', [k], lambda: 'ok ' + self.found(self.headers.connect(self.raws[k - 1])))
        return r

    def connect_new(self, parent, bits=None, ts=None):
        """Mine and connect a valid child for the 'table' rule."""
        ts = ts if ts is not None else self.ts0 + self.rng.randrange(100000)
        bits = bits if bits is not None else self.table[ts % len(self.table)]
        k = self.mine(parent, bits, ts)
        return k, self.connect(k)

    def p(self):
        self.rec('p', [], lambda: f'{len(self.headers)};{self.chains_text()}')

    def w(self):
        self.rec('w', [], self.work_text)

    def full(self):
        self.rec('full', [], self.full_text)

    def lk(self, k):
        self.rec('lk', [k], lambda: self.found(self.headers.lookup(self.hash(self.raws[k - 1]))))

    def lx(self, hash_):
        self.rec('lx', [hash_.hex()], lambda: self.found(self.headers.lookup(hash_)))

    def at(self, c, height):
        ch = self.chain(c)
        self.rec('at', [c, height], lambda: self.hdr(self.headers.header_at_height(ch, height),
                                                     self.headers.raw_header_at_height(ch, height)))

    def cm(self, a, b):
        def f():
            c, height = self.chain(a).common_chain_and_height(self.chain(b))
            return f'{self.cidx(c)}@{height}'
        self.rec('cm', [a, b], f)

    def ph(self, c):
        def f():
            heights = self.chain(c).parent_heights()
            t = ','.join(f'{self.cidx(x)}@{n}' for x, n in heights.items())
            heights.popitem()       # it is ours
            return t
        self.rec('ph', [c], f)

    def wr(self, c, lo, hi):
        self.rec('wr', [c, lo, hi], lambda: str(self.headers.chainwork_range(self.chain(c), lo, hi)))

    def wt(self, c, height):
        self.rec('wt', [c, height], lambda: str(self.headers.chainwork_to_height(self.chain(c), height)))

    def mtp(self, c, height):
        self.rec('mtp', [c, height], lambda: str(self.headers.median_time_past(self.chain(c), height)))

    def rb(self, c, height, ts):
        self.rec('rb', [c, height, be(ts)], lambda: str(self.headers.required_bits(self.chain(c), height, ts)))

    def set(self, height, k, conv=bytes):
        self.rec('set', [height, k], lambda: 'ok' if self.headers.set_one(height, conv(self.raws[k - 1])) is None else '?')

    def setbad(self, height, value):
        self.rec('setbad', [height], lambda: 'ok' if self.headers.set_one(height, value) is None else '?')

    def setrun(self, height, ks):
        def f():
            for n, k in enumerate(ks):
                self.headers.set_one(height + n, self.raws[k - 1])
            return 'ok'
        self.rec('setrun', [height, ks], f)

    def star(self, parent, n):
        """Connect n new children of one header."""
        ks = [self.mine(parent, self.table[0], self.ts0) for _ in range(n)]

        def f():
            for k in ks:
                self.headers.connect(self.raws[k - 1])
            return f'{len(self.headers)},{self.headers.chain_count()}'
        self.rec('star', [ks[0], n], f)
        return ks

    def length(self):
        self.rec('len', [], lambda: str(len(self.headers)))

    def file(self):
        def f():
            self.headers.flush()
            size, version, count, text = self.file_list()
            return f'{size},{version},{count};{text}'
        self.rec('file', [str(self.reserved)], f)

    def reopen(self, flush=None):
        def f():
            if self.headers and (flush if flush is not None else self.rng.random() < .5):
                self.headers.flush()
            self.headers = self.open()
            return 'ok'
        return self.rec('re', [], f)

    def fresh(self):
        def f():
            self.headers = self.open()
            return 'ok'
        return self.rec('fresh', [], f)

    def moved(self, k, height, prior):
        """Opened with another checkpoint; if refused, again with the one before."""
        before = self.cp, self.ncp, self.cph, self.prior
        if self.rng.random() < .5:
            self.headers.flush()
        self.cp, self.ncp, self.cph, self.prior = bx.CheckPoint(self.raws[k - 1], height, prior), k, height, prior

        def f():
            self.headers = self.open()
            return 'ok'
        if self.rec('moved', [k, height, be(prior)], f) != 'ok':
            self.cp, self.ncp, self.cph, self.prior = before
            self.reopen()
            return False
        return True

    def restored(self, n):
        """The file is put back to how it was when it held the first n headers."""
        def f():
            self.headers = self.open()
            return 'ok'
        return self.rec('restored', [n], f)

    # -- refusals of the system -------------------------------------------------
    def refused(self, kind, f):
        """Run f while the system refuses something."""
        def map_none(*args, **kwargs):
            raise OSError(12, 'Cannot allocate memory')
        limits = {'size': resource.RLIMIT_FSIZE, 'files': resource.RLIMIT_NOFILE, 'files2': resource.RLIMIT_NOFILE}
        if kind in limits:
            what = limits[kind]
            old = resource.getrlimit(what)
            if kind == 'size':
                size = os.path.getsize(self.path) if os.path.exists(self.path) else self.rng.randrange(8 + 80 * (self.cph + 1))
            else:
                size = os.dup(0)
                os.close(size)
                size += kind == 'files2'
        elif kind == 'gone':
            os.rename(self.path, self.path + '.away')
        real = mmap.mmap
        try:
            if kind in limits:
                resource.setrlimit(what, (size, old[1]))
            elif kind == 'map':
                mmap.mmap = map_none
            try:
                return f()
            except OSError:
                return '!OSError'
        finally:
            mmap.mmap = real
            if kind in limits:
                resource.setrlimit(what, old)
            elif kind == 'gone':
                os.rename(self.path + '.away', self.path)

    def cf(self, k, kind):
        return self.rec('cf', [k], lambda: self.refused(kind, lambda: 'ok ' + self.found(self.headers.connect(self.raws[k - 1]))))

    def of(self, kind):
        def f():
            before = self.read()
            r = self.refused(kind, lambda: 'ok' if self.open() else '?')
            return r + (' same' if self.read() == before else ' changed')
        return self.rec('of', [], f)

    def nf(self, kind):
        return self.rec('nf', [], lambda: self.refused(kind, lambda: 'ok' if self.open() else '?'))

    def trim(self):
        """Opened again without the room there was for more headers."""
        self.headers.flush()
        count = struct.unpack('<I', self.read()[4:8])[0]
        os.truncate(self.path, self.reserved + 80 * count)
        return self.reopen(False)

    # -- process death ----------------------------------------------------------
    def read(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def watch(self, f):
        """Run f; return its result and every distinct content the file had between two steps of the library."""
        snaps = [self.read()]

        def look():
            data = self.read()
            if data != snaps[-1]:
                snaps.append(data)

        def tracer(frame, event, arg):
            if LIBRARY not in frame.f_code.co_filename:
                return None
            frame.f_trace_opcodes = True
            look()
            return tracer
        sys.settrace(tracer)
        try:
            r = f()
        finally:
            sys.settrace(None)
        look()
        return r, snaps

    def torn(self, snaps, lo):
        """Contents with the last change from one content to the next written only in part, beyond offset lo."""
        res = []
        for a, b in zip(snaps, snaps[1:]):
            if a is None or b is None:
                continue
            if len(a) != len(b):
                if b[:len(a)] == a and len(b) - len(a) < 200000:
                    res += [b[:self.rng.randrange(len(a), len(b))] for _ in range(3)]
                continue
            diff = [i for i in range(len(a)) if a[i] != b[i]]
            if diff[0] >= lo and diff[-1] - diff[0] < 80:
                for _ in range(3):
                    cut = self.rng.randrange(diff[0], diff[-1] + 1)
                    res.append(b[:cut] + a[cut:])
        return res

    def place(self, path, data):
        if data is None:
            if os.path.exists(path):
                os.unlink(path)
            return
        with open(path + '.new', 'wb') as f:
            f.write(data)
        os.replace(path + '.new', path)

    def reopened(self, data, text, retry):
        """What opening a file with this content shows; and again after retrying the operation."""
        path = os.path.join(self.dir, 'crashed')
        self.place(path, data)
        res = []
        headers = None
        for step in (lambda h: self.cls.from_file(self.coin, path, self.cp), retry):
            try:
                headers = step(headers) or headers
                res.append(text(headers, path))
            except (bx.MissingHeader, bx.IncorrectBits, bx.InsufficientPoW) as e:
                # how the retried operation itself fails is observed elsewhere
                res.append(text(headers, path) if headers is not None and res else '!!' + type(e).__name__)
            except Exception as e:
                res.append('!!' + type(e).__name__)
        return res

    def both_text(self, headers, path):
        return self.full_text(headers, path) + ';' + self.file_list(0, path)[3]

    def crash_event(self, name, args, operate, retry, text, lo):
        def f():
            r, snaps = self.watch(operate)
            datas = list(dict.fromkeys(snaps + self.torn(snaps, lo)))
            self.snaps = snaps
            seen = [self.reopened(d, text, retry) for d in datas]
            self.ev_args = [seen]
            return r
        signal.setitimer(signal.ITIMER_REAL, 120)
        try:
            r = f()
        except Timeout:
            r, self.ev_args = '!timeout', [[]]
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.ev.append([name, *args, *self.ev_args, r])
        return r

    def quiet(self, f):
        try:
            return f()
        except Timeout:
            raise
        except Exception as e:
            return '!' + type(e).__name__

    def crashc(self, k):
        raw = self.raws[k - 1]
        return self.crash_event('crashc', [k], lambda: self.quiet(lambda: 'ok ' + self.found(self.headers.connect(raw))),
                                lambda h: h.connect(raw) and None, self.full_text, 8)

    def crashs(self, height, k):
        raw = self.raws[k - 1]
        return self.crash_event('crashs', [height, k], lambda: self.quiet(lambda: str(self.headers.set_one(height, raw))),
                                lambda h: h.set_one(height, raw), self.both_text, 1 << 60)

    def crashn(self):
        def create():
            self.headers = self.open()
            return 'ok'
        return self.crash_event('crashn', [], lambda: self.quiet(create),
                                lambda h: None, self.full_text, 0)

    def die(self, name, args, operate, text):
        """Die at some point of an operation; go on with the file as it was then."""
        def f():
            r, snaps = self.watch(lambda: self.quiet(operate))
            self.headers = None
            self.place(self.path, self.rng.choice(snaps))
            self.headers = self.open()
            return text(self.headers, self.path)
        return self.rec(name, args, f)

    def diec(self, k):
        return self.die('diec', [k], lambda: self.headers.connect(self.raws[k - 1]), self.full_text)

    def dies(self, height, k):
        return self.die('dies', [height, k], lambda: self.headers.set_one(height, self.raws[k - 1]), self.both_text)

    def dien(self):
        return self.die('dien', [], self.open, self.full_text)

    def done(self):
        ncp, cph, prior = self.first
        cfg = dict(cp=ncp, cph=cph, prior=be(prior), rule=self.rule,
                   table=[b.to_bytes(4, 'big').hex() for b in self.table],
                   gbits=self.gbits.to_bytes(4, 'big').hex(), fieldhash=self.fieldhash)
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(cfg=cfg, hdrs=self.hdrs, ev=self.ev)
