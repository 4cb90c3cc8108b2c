"""C01-C05, C07-C09: histories of block header operations.  See hist.py."""
import json, math, os, random, sys, traceback
from field import FIELD            # before bitcoinx
from lib import HALF, in_library, in_processes, load, on_alarm
import signal
from hist import *

cfg, out = load()
PID, BIG, SEED = cfg['pid'], cfg['thorough'], cfg['seed']
WORK = cfg['work']


def queries(H, kinds, deep=True):
    """Exhaustive queries of the current state of a small history."""
    n = H.nchains()
    for c in range(1, n + 1):
        ch = H.chain(c)
        lo, hi = H.cph - 1, ch.height + 1
        if 'at' in kinds:
            for x in range(max(lo, -1), hi + 1):
                H.at(c, x)
            H.ph(c)
            for d in range(1, n + 1):
                H.cm(c, d)
        if 'work' in kinds:
            for x in range(H.cph, ch.height + 1):
                H.wt(c, x)
            for x in range(H.cph, ch.height + 2):
                for y in range(x, ch.height + 2):
                    if deep or H.rng.random() < .3:
                        H.wr(c, x, y)
    if 'lk' in kinds:
        for k in range(1, len(H.hdrs) + 1):
            H.lk(k)


def observe(H, kinds):
    if 'p' in kinds:
        H.p()
    if 'w' in kinds:
        H.w()
    if 'full' in kinds:
        H.full()
    # now and then a few queries, so that an answer given before the headers grew can be seen going stale
    rng, n = H.rng, H.nchains()
    if n < 400 and rng.random() < .35:
        for _ in range(rng.randrange(1, 4)):
            c, d = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
            top = H.chain(c).height
            x = rng.choice((top, top + 1, rng.randrange(max(H.cph - 1, 0), top + 2)))
            if 'at' in kinds:
                H.at(c, x)
                H.cm(c, d)
                H.ph(rng.choice((c, d)))
            if 'work' in kinds:
                y = rng.randrange(H.cph, top + 1)
                H.wt(c, y)
                H.wr(c, *sorted((y, rng.randrange(H.cph, top + 2))))
            if 'lk' in kinds:
                H.lk(rng.randrange(1, len(H.hdrs) + 1))
            if 'rb' in kinds:
                for y in {x, H.chain(d).height + 1, max(H.cph - 1, top - rng.randrange(5))}:
                    H.rb(c, y, H.ts0 + rng.choice((0, 600, 1200, 1201, 1 << 30)))
                    H.mtp(d, y - 1)


def replay_tree(case, rng, kinds, **kw):
    """A behaviour printed by TLC (MC_Chains): connect headers with the given parents in order."""
    table = [EASY[0], EASY[1], EASY[3]]
    H = Hist(WORK, rng, table=table, **kw)
    num = {1: H.ncp}
    for n, p in enumerate(case['parents'], 2):
        w = case['works'][n - 1]
        cls = (w - 1) if len(set(case['works'])) > 1 else rng.randrange(3)
        ts = 1400000000 - 1400000000 % 3 + cls + 3 * rng.randrange(1000)
        k = H.mine(num[p], table[ts % 3], ts)
        num[n] = k
        H.connect(k)
        observe(H, kinds)
    queries(H, kinds)
    if 'reopen' in kinds:
        H.reopen()
        observe(H, kinds)
        queries(H, kinds, deep=False)
    return H


def random_history(rng, kinds, *, steps=40, cph=None, cache=None, rule=None, fieldhash=False, rejects=True, p_reopen=.05,
                   p_fork=.3, query=True, p_same=.3, prior=None):
    rule = rule or rng.choice(('table', 'table', 'ancestor'))
    table = rng.choice(([EASY[0]], [EASY[0], EASY[1], EASY[2]], [EASY[0], EASY[3], EASY[1], EASY[0]], [EASY[1], EASY[4]]))
    cph = cph if cph is not None else rng.choice((0, 0, 1, 2, 5, 17, 300, 70000))
    if rule == 'ancestor' and cph < 1:
        cph = 3
    H = Hist(WORK, rng, cph=cph, rule=rule, table=table, fieldhash=fieldhash, cache=cache,
             prior=prior if prior is not None else rng.choice((0, 1, 12345, 1 << 80)))
    if rule == 'ancestor':
        k = H.add(raw_header(rng.randbytes(32), rng.randbytes(32), rng.getrandbits(31), EASY[0], 1), -1)
        H.set(cph - 1, k)
    hist = list()
    live = [H.ncp]      # connected headers, as far as we know
    height = {H.ncp: cph}
    parent = {H.ncp: 0}
    rejected = []
    ts2 = {}

    def need(p, ts):
        if rule == 'table':
            return table[ts % len(table)]
        gp = parent[p]
        raw = H.raws[gp - 1] if gp else H.raws[1]
        return table[(ts + 3 * struct.unpack('<I', raw[68:72])[0]) % len(table)]

    observe(H, kinds)
    for _ in range(steps):
        r = rng.random()
        tips = [k for k in live if k not in parent.values()] or live
        p = rng.choice(live) if rng.random() < p_fork else rng.choice(tips)
        ts = rng.choice((H.ts0 + rng.randrange(1000000), rng.getrandbits(32)) if rng.random() < .8 else (0, 1, 2 ** 32 - 1, 2 ** 31))
        bits = need(p, ts)
        if r < .62:
            k = H.mine(p, bits, ts)
            if H.connect(k).startswith('ok'):
                live.append(k)
                parent[k] = p
        elif r < .70 and rejects:
            other = rng.choice([b for b in EASY.values() if b != bits] + [0x1d00ffff, 0x207ffffe, bits - 1])
            try:
                k = H.mine(p, other, ts) if other in EASY.values() else H.mine(p, other, ts, ok=False)
            except Exception:
                continue
            H.connect(k)
            rejected.append(k)
        elif r < .76 and rejects:
            k = H.mine(p, bits, ts, ok=False)
            H.connect(k)
            rejected.append(k)
        elif r < .80 and rejects:     # orphan
            q = rng.choice(rejected) if rejected and rng.random() < .6 else None
            k = H.mine(q, bits, ts) if q else H.mine(1, bits, ts, prev=rng.randbytes(32))
            H.connect(k)
            rejected.append(k)
        elif r < .88 and rejects:     # known, or rejected earlier
            H.connect(rng.choice(live[1:] or live) if rng.random() < .7 or not rejected else rng.choice(rejected))
        elif r < .88 + p_reopen:
            H.reopen()
        elif 'lk' in kinds:
            H.lk(rng.choice(live))
            if rejected:
                H.lk(rng.choice(rejected))
            H.lx(rng.randbytes(32))
        observe(H, kinds)
    # headers rejected for lack of a parent may have one now; all known ones must still be known
    for k in rng.sample(rejected, min(len(rejected), 5)):
        H.connect(k)
        observe(H, kinds)
    if query:
        queries(H, kinds, deep=False)
    if 'reopen' in kinds:
        H.reopen()
        observe(H, kinds)
        if query:
            queries(H, kinds, deep=False)
    return H


# ---------------------------------------------------------------- C01
def equality(rng):
    """Hash value exactly at, one below and one above the target."""
    table = [EASY[0], EASY[3], 0x1d00ffff, 0x1b0404cb]
    H = Hist(WORK, rng, table=table, fieldhash=True, cph=rng.choice((0, 7)))
    p = H.ncp
    for bits_i in (0, 1, 2, 3):
        t = target_of(table[bits_i])
        for v in (t + 1, t, t - 1, 1 << 255, (t << 8) & (2 ** 256 - 1), 1):
            ts = H.ts0 - H.ts0 % 4 + bits_i
            raw = raw_header(H.hash(H.raws[p - 1]), v.to_bytes(32, 'little'), ts, table[bits_i], rng.getrandbits(32))
            if H.hash(raw) in H.by_hash:
                continue
            k = H.add(raw, p)
            if H.connect(k).startswith('ok'):
                p = k
            H.p()
    return H


def deep_duplicates(rng):
    """Known headers far back, on several chains, after many others; and after reopening."""
    H = Hist(WORK, rng, table=[EASY[0]], cph=rng.choice((0, 4)), cache=rng.choice((None, 3, 10)))
    ks = [H.ncp]
    for n in range(60):
        k, r = H.connect_new(rng.choice(ks[-3:]) if rng.random() < .3 else ks[-1])
        ks.append(k)
    for phase in range(2):
        for k in ks:
            H.connect(k)
        H.p()
        H.reopen()
    k = H.mine(ks[5], EASY[0], H.ts0, ok=False)
    H.connect(k)
    H.connect(H.mine(ks[5], EASY[1], H.ts0))
    H.p()
    return H


def c01():
    for case in cfg['cases']:
        yield lambda rng, case=case: replay_tree(case, rng, {'p'})
    for _ in range(1200 if BIG else 120):
        yield lambda rng: random_history(rng, {'p', 'lk'}, steps=60 if BIG else 40, query=False, cache=rng.choice((None, None, 4, 1)))
    for _ in range(20 if BIG else 4):
        yield equality
        yield deep_duplicates
    for _ in range(40 if BIG else 8):
        yield lambda rng: real_rule_connects(rng, {'p'})
        yield lambda rng: neighbours(rng, {'p'})


# ---------------------------------------------------------------- C02
def many_chains(rng, kinds, n=300, cache=None):
    H = Hist(WORK, rng, table=[EASY[0]], cph=rng.choice((0, 2, 66000)), cache=cache)
    ks = [H.ncp]
    for _ in range(n):
        k, r = H.connect_new(rng.choice(ks))
        ks.append(k)
    for _ in range(40):      # growth of the youngest chains, long after they were made
        k, r = H.connect_new(rng.choice(ks[-60:]))
        ks.append(k)
    observe(H, kinds)
    for _ in range(60):
        c, d = rng.randrange(1, H.nchains() + 1), rng.randrange(1, H.nchains() + 1)
        if 'at' in kinds:
            H.cm(c, d)
            H.ph(c)
            H.at(c, rng.randrange(H.cph, H.chain(c).height + 2))
        if 'work' in kinds:
            H.wt(c, rng.randrange(H.cph, H.chain(c).height + 1))
        if 'lk' in kinds:
            H.lk(rng.choice(ks))
    if 'reopen' in kinds:
        H.reopen()
        observe(H, kinds)
    return H


def vast(rng, n=65600):
    """More chains than 16 bits can count."""
    H = Hist(WORK, rng, table=[EASY[0]], cache=1 << 40)
    a, _ = H.connect_new(H.ncp)
    ks = H.star(H.ncp, n)
    b, _ = H.connect_new(ks[-1])
    ks.append(H.connect_new(ks[-1])[0])
    for phase in range(2):
        for k in (a, b, ks[0], ks[254], ks[65534], ks[65535], ks[65536], ks[-1]):
            H.lk(k)
        for c in (1, 2, 256, 257, 65535, 65536, 65537, H.nchains()):
            H.at(c, 1)
            H.at(c, 2)
            H.cm(c, 65538)
        H.reopen()
    H.length()
    return H


def nested(rng, kinds, n=1100):
    """Each chain forks from the one before: more ancestors than Python permits recursive calls."""
    H = Hist(WORK, rng, table=[EASY[0]], cph=rng.choice((0, 3)), cache=rng.choice((None, 1 << 40)))
    k, _ = H.connect_new(H.ncp)
    ks = [H.ncp, k]
    for x in range(n):
        a, _ = H.connect_new(ks[-2])              # a sibling of the last, so a new chain
        b, _ = H.connect_new(a)                   # which grows by one
        ks += (a, b)
    for phase in range(2):
        last, some = H.nchains(), rng.randrange(2, H.nchains())
        for c in (last, some):
            for height in (H.cph - 1, H.cph, H.cph + 1, H.cph + 2, rng.randrange(H.cph, H.chain(c).height), H.chain(c).height + 1):
                if 'at' in kinds:
                    H.at(c, height)
            if 'work' in kinds:
                H.wr(c, H.cph, H.cph + 5)
                H.wt(c, H.chain(c).height - 5)
        if 'work' in kinds:
            H.w()
            if 'mtp' in kinds:
                H.mtp(c, H.cph + 3)
                H.mtp(c, H.chain(c).height)
        if 'at' in kinds:
            H.cm(last, 1)
            H.cm(some, last)
            H.ph(last)
        if 'lk' in kinds:
            H.lk(ks[1])
            H.lk(rng.choice(ks))
        if phase == 0:
            k, _ = H.connect_new(ks[1] if rng.random() < .5 else rng.choice(ks[:-2]))
            H.reopen()
            if 'full' in kinds:
                H.full()
    return H


def neighbours(rng, kinds):
    """Other sets of headers in use at once, of some of the same headers and some others; and the set started over in the same place."""
    H = Hist(WORK, rng, table=[EASY[0], EASY[1]], cph=rng.choice((0, 3)), cache=rng.choice((None, None, 4)), prior=rng.choice((0, 9)))
    own = H.headers
    others = [H.cls.from_file(H.coin, f'{H.path}{n}', H.cp) for n in range(2)]
    others.append(bx.Headers.from_file(bx.Bitcoin, H.path + 'b', bx.CheckPoint(bx.Bitcoin.genesis_header, 0, 0)))
    ks, mine = [H.ncp], [H.ncp]
    for phase in range(2):
        for _ in range(14):
            k = H.mine(rng.choice(ks[-6:]) if rng.random() < .7 else rng.choice(ks), EASY[0], H.ts0)
            ks.append(k)
            first = rng.random() < .5
            if first:
                H.connect(k)
            for x in others:
                if rng.random() < .6:
                    try:
                        x.connect(H.raws[k - 1])
                    except bx.MissingHeader:
                        pass
            if not first and rng.random() < .5:
                H.lk(k)
                H.connect(k)
            observe(H, kinds)
        queries(H, kinds | {'lk'}, deep=False)
        if phase == 0:          # as if never used; what is left of the earlier session lives on
            if rng.random() < .5:
                own.flush()
            os.unlink(H.path)
            H.fresh()
            observe(H, kinds)
            for k in rng.sample(ks, 5):
                H.lk(k)
    H.reopen()
    H.full()
    return H


def comb(rng, kinds):
    """Forks of forks, each a few headers long, then growth of every chain in turn."""
    H = Hist(WORK, rng, table=[EASY[0], EASY[1]], cph=rng.choice((0, 1, 9)), cache=rng.choice((None, 2)))
    tips = [H.ncp]
    spine = [[H.ncp]]
    for depth in range(6):
        path = spine[-1]
        start = rng.choice(path[-4:-1] or path)
        new = [start]
        for _ in range(rng.randrange(1, 5)):
            k, r = H.connect_new(new[-1])
            new.append(k)
        spine.append(new)
        observe(H, kinds)
    for _ in range(12):
        path = rng.choice(spine)
        k, r = H.connect_new(path[-1])
        path.append(k)
        observe(H, kinds)
    queries(H, kinds, deep=False)
    H.reopen()
    observe(H, kinds)
    queries(H, kinds, deep=False)
    return H


def c02():
    kinds = {'p', 'at', 'reopen'}
    for case in cfg['cases']:
        yield lambda rng, case=case: replay_tree(case, rng, kinds, cph=rng.choice((0, 3)))
    for _ in range(700 if BIG else 60):
        yield lambda rng: random_history(rng, kinds, steps=40, rejects=rng.random() < .3, p_fork=rng.choice((.1, .4, .8)))
    for _ in range(60 if BIG else 12):
        yield lambda rng: comb(rng, kinds)
    for cache in (None, 1, 4, None) if BIG else (None, 1):
        yield lambda rng, cache=cache: many_chains(rng, kinds, cache=cache)
    for _ in range(40 if BIG else 8):
        yield lambda rng: neighbours(rng, kinds)
    yield lambda rng: nested(rng, kinds)
    yield vast


# ---------------------------------------------------------------- C03
def near(rng, h):
    k = rng.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, 28, 30, 31, rng.randrange(32)))
    r = rng.random()
    if r < .6:
        return h[:k] + bytes([h[k] ^ rng.randrange(1, 128)]) + h[k + 1:]
    return h[:k] + rng.randbytes(32 - k) if r < .8 else rng.randbytes(k) + h[k:]


def collisions(rng, n=200):
    """Hashes with chosen prefixes: equal ones, and ones that straddle two stored prefixes."""
    H = Hist(WORK, rng, table=[EASY[0]], fieldhash=True, cph=rng.choice((0, 3)), cache=rng.choice((1, 4, 50)))
    ks = [H.ncp]
    prefixes = [H.hash(H.raws[0])[:4]]
    absent = set()
    for _ in range(n):
        r = rng.random()
        if r < .2:
            pre = rng.choice(prefixes)
        elif r < .6 and len(prefixes) > 1:
            i = rng.randrange(len(prefixes) - 1)
            s = rng.randrange(1, 4)
            pre = (prefixes[i] + prefixes[i + 1])[s:s + 4]
        elif r < .7:
            pre = bytes([rng.choice((0, 1))] * 4)
        else:
            pre = bytes(rng.choice((0, 0, 1, 255)) for _ in range(4))
        h = pre + rng.randbytes(27) + bytes([rng.randrange(0x7f)])
        if rng.random() < .3:       # like that of another header but for one byte, or for a few at one end
            h = near(rng, H.hash(H.raws[rng.choice(ks) - 1]))
            h = h[:31] + bytes([h[31] % 0x7f])
            if h in H.by_hash or h in absent:
                continue
        other = pre + rng.randbytes(28)
        p = rng.choice(ks) if rng.random() < .3 else ks[-1]
        if rng.random() < .2:
            x = near(rng, H.hash(H.raws[rng.choice(ks) - 1]))
            if x not in H.by_hash:
                absent.add(x)
                H.lx(x)
                H.connect(H.mine(1, EASY[0], H.ts0, prev=x))
        raw = raw_header(H.hash(H.raws[p - 1]), h, H.ts0, EASY[0], rng.getrandbits(32))
        k = H.add(raw, p)
        H.lk(k)
        if H.connect(k).startswith('ok'):
            ks.append(k)
            prefixes.append(h[:4])
        H.lx(other)
        for k in rng.sample(ks, min(3, len(ks))):
            H.lk(k)
    for k in ks:
        H.lk(k)
    H.reopen()
    for k in ks:
        H.lk(k)
    H.lx(bytes(32))
    H.lx(b'\xff' * 32)
    return H


def long_cache(rng, n):
    """Past the default cache capacity, with forks; every header looked up before and after reopening."""
    H = Hist(WORK, rng, table=[EASY[0]], cph=rng.choice((0, 11)))
    ks = [H.ncp]
    side = None
    for i in range(n):
        if rng.random() < .01:
            side = rng.choice(ks)
        if side and rng.random() < .3:
            k, r = H.connect_new(side)
            side = k
            ks.insert(-1, k)
        else:
            k, r = H.connect_new(ks[-1])
            ks.append(k)
        if rng.random() < .02:
            H.lk(rng.choice(ks))
            H.lx(H.hash(H.raws[rng.choice(ks) - 1])[:4] + rng.randbytes(28))
            x = near(rng, H.hash(H.raws[rng.choice(ks) - 1]))
            if x not in H.by_hash:
                H.lx(x)
    for k in rng.sample(ks, min(len(ks), 400)) + ks[:10]:
        H.lk(k)
    H.reopen()
    for k in rng.sample(ks, min(len(ks), 300)) + ks[:10]:
        H.lk(k)
    return H


def c03():
    kinds = {'lk', 'reopen'}
    for case in cfg['cases']:
        yield lambda rng, case=case: replay_tree(case, rng, kinds, cache=rng.choice((1, 2, 3)))
    for _ in range(200 if BIG else 24):
        yield lambda rng: random_history(rng, kinds, steps=50, cache=rng.choice((1, 2, 4, 7, None)))
    for _ in range(60 if BIG else 12):
        yield collisions
    for _ in range(8 if BIG else 2):
        yield lambda rng: long_cache(rng, 2600 if BIG else 1300)
    yield lambda rng: long_cache(rng, 9000 if BIG else 5000)
    for cache in (None, 1, 4):
        yield lambda rng, cache=cache: many_chains(rng, kinds, cache=cache)
    for _ in range(60 if BIG else 12):
        yield lambda rng: neighbours(rng, kinds)


# ---------------------------------------------------------------- C04
def far(rng, n):
    """Work over ranges of every length on a long chain, and forks off it far below its tip."""
    H = Hist(WORK, rng, table=[EASY[0], EASY[1]], cph=rng.choice((0, 5)), prior=rng.choice((0, 99)))
    ks = [H.ncp]
    for _ in range(n):
        k, r = H.connect_new(ks[-1])
        ks.append(k)
    tip = H.cph + n
    H.w()
    for d in (n, n - 1, 1001, 1000, 999, 513, 257, 256, 255, 128, 100, 1):
        a = tip - d + 1
        H.wr(1, a, tip + 1)
        H.wr(1, H.cph + 1, H.cph + 1 + d)
        H.wt(1, a - 1)
    for d in (n - 1, 1100, 300, 40):
        k, r = H.connect_new(ks[n - d])
        k, r = H.connect_new(k)
        H.w()
    H.reopen()
    H.w()
    return H


def ties(rng):
    H = Hist(WORK, rng, table=[EASY[0], EASY[1]], cph=rng.choice((0, 5)), prior=rng.choice((0, 99)))
    ts = lambda i: H.ts0 - H.ts0 % 2 + i + 2 * rng.randrange(1000)
    tips = [H.ncp] * 3
    H.w()
    for _ in range(30):
        i = rng.randrange(3)
        tips[i], r = H.connect_new(tips[i], ts=ts(rng.choice((0, 0, 1))))
        H.w()
    H.reopen()
    H.w()
    return H


def c04():
    kinds = {'w', 'work', 'reopen'}
    for case in cfg['cases']:
        yield lambda rng, case=case: replay_tree(case, rng, kinds, cph=rng.choice((0, 3)), prior=rng.choice((0, 1000)))
    for _ in range(500 if BIG else 60):
        yield lambda rng: random_history(rng, kinds, steps=30, rejects=rng.random() < .3, p_fork=rng.choice((.1, .4, .7)))
    for _ in range(60 if BIG else 16):
        yield ties
        yield lambda rng: comb(rng, kinds)
    for _ in range(30 if BIG else 6):
        yield lambda rng: set_reads(rng, {'work'})
    yield lambda rng: nested(rng, {'work'})
    yield lambda rng: far(rng, 3000 if BIG else 1300)
    for _ in range(40 if BIG else 8):
        yield lambda rng: neighbours(rng, {'w', 'work'})


# ---------------------------------------------------------------- C05
def sessions(rng):
    H = random_history(rng, {'full'}, steps=25, p_reopen=.12, query=False)
    for _ in range(3):
        H.reopen()
        H.full()
    H.file()
    return H


def pre_sessions(rng):
    H = set_reads(rng, {'full', 'file'})
    H.reopen()
    H.full()
    H.file()
    return H


def bad_data(rng, H, what):
    cp, n = H.cp, H.cph
    good = struct.pack('<HHI', 8, 0, n + 1) + bytes(80 * n) + cp.raw_header
    other = bytearray(cp.raw_header)
    other[rng.randrange(80)] ^= 1 << rng.randrange(8)
    return {
        'missing': None, 'empty': b'', 'short': good[:rng.randrange(1, 8)], 'reserved only': good[:8],
        'partial': good[:-rng.randrange(1, 80)], 'version': struct.pack('<HHI', 8, rng.choice((1, 2, 256, 65535)), n + 1) + good[8:],
        'other checkpoint': good[:-80] + bytes(other), 'zero checkpoint': good[:-80] + bytes(80),
        'junk': rng.randbytes(rng.choice((100, 400))), 'longer other': good[:-80] + bytes(other) + rng.randbytes(160),
    }[what]


def bad_file(rng, what):
    H = Hist(WORK, rng, cph=rng.choice((0, 1, 3)), open_=False, table=[EASY[0]])
    data = bad_data(rng, H, what)
    if data is not None:
        with open(H.path, 'wb') as f:
            f.write(data)
    H.fresh()
    H.full()
    H.file()
    p = H.ncp
    for _ in range(rng.randrange(1, 4)):
        p, r = H.connect_new(p)
        H.full()
    H.reopen()
    H.full()
    H.file()
    return H


BAD = ('missing', 'empty', 'short', 'reserved only', 'partial', 'version', 'other checkpoint', 'zero checkpoint', 'junk', 'longer other')


def by_hand(rng):
    """A file written by hand in the documented layout, possibly with a larger reserved area."""
    reserved = rng.choice((8, 8, 16, 24, 100))
    H = Hist(WORK, rng, cph=rng.choice((0, 2, 6)), open_=False, table=[EASY[0], EASY[1]], reserved=reserved)
    ks, ps = [H.ncp], {}
    for _ in range(rng.randrange(1, 12)):
        p = rng.choice(ks)
        ts = H.ts0 + rng.randrange(1000)
        k = H.mine(p, H.table[ts % 2], ts)
        ks.append(k)
    pre = {x: H.add(rng.randbytes(80), -1) for x in range(H.cph) if rng.random() < .6}
    slots = [H.raws[pre[x] - 1] if x in pre else bytes(80) for x in range(H.cph)] + [H.raws[k - 1] for k in ks]
    # a fresh history that connects the same headers must lead to the same state
    with open(H.path, 'wb') as f:
        f.write(struct.pack('<HHI', reserved, 0, len(slots)) + rng.randbytes(reserved - 8) + b''.join(slots)
                + bytes(80 * rng.choice((0, 0, 1, 40))))
    H.headers = H.open()
    first = H.headers
    for k in ks[1:]:
        H.ev.append(['c', k, None])
    for x, k in pre.items():
        H.ev.append(['set', x, k, 'ok'])
    # the expected outcomes of those connects are what a session would have seen; fill them from a scratch session
    G = Hist(WORK, rng, cph=H.cph, cp_raw=H.cp.raw_header, coin=H.coin, table=H.table)
    for k in ks[1:]:
        G.add(H.raws[k - 1], -1)
    n = 0
    for e in H.ev:
        if e[0] == 'c':
            n += 1
            g = G.headers.connect(H.raws[e[1] - 1])
            e[2] = 'ok ' + f'{H.hdr(g[0])}:{G.cidx(g[1])}'
    shutil.rmtree(G.dir, ignore_errors=True)
    H.headers = first
    H.full()
    H.file()
    k, r = H.connect_new(rng.choice(ks))
    H.full()
    H.reopen()
    H.full()
    H.file()
    queries(H, {'at', 'lk'})
    return H


def replaced(rng):
    """The file put back as it was before, in place of the one in use, between two sessions."""
    H = Hist(WORK, rng, cph=rng.choice((0, 2)), table=[EASY[0], EASY[1]])
    ks = [H.ncp]
    for _ in range(rng.randrange(0, 6)):
        ks.append(H.connect_new(rng.choice(ks))[0])
    H.headers.flush()
    with open(H.path, 'rb') as f:
        saved = f.read()
    H.full()
    before = len(ks)
    kept = [H.headers]      # earlier sessions live on
    for _ in range(rng.randrange(1, 5)):
        ks.append(H.connect_new(rng.choice(ks))[0])
    H.full()
    kept.append(H.headers)
    H.place(H.path, saved)
    # as a history: everything starts over and the earlier headers are connected again
    H.headers = None
    H.restored(before)
    H.full()
    H.file()
    for k in ks[before:]:
        H.connect(k)
    H.full()
    H.reopen()
    H.full()
    H.file()
    return H


def growth(rng, n=5012, cph=0):
    H = Hist(WORK, rng, cph=cph, table=[EASY[0]])
    p = H.ncp
    mid = None
    for i in range(n):
        p, r = H.connect_new(p)
        if i in (4990, 4997, 4998, 4999, 5000, 5001, 5002, 9999, 10000):
            H.full() if BIG else H.p()
        if i == n // 2:
            mid = p
        if i in (100, n - 7):
            H.reopen()
            H.p()
    H.connect_new(mid)
    H.full()
    H.reopen()
    H.full()
    H.lk(3)
    H.lk(p)
    return H


def c05():
    for case in cfg['cases']:
        yield lambda rng, case=case: replay_tree(case, rng, {'full', 'reopen'}, cph=rng.choice((0, 2)))
    for _ in range(400 if BIG else 40):
        yield sessions
        yield by_hand
        yield replaced
    for _ in range(60 if BIG else 10):
        yield pre_sessions
    for w in BAD:
        for _ in range(20 if BIG else 3):
            yield lambda rng, w=w: bad_file(rng, w)
    yield lambda rng: growth(rng)
    yield lambda rng: random_history(rng, {'full', 'reopen', 'lk'}, steps=30, cph=rng.choice((65534, 65535, 65536, 131072)))
    yield lambda rng: many_chains(rng, {'full', 'reopen'})
    yield lambda rng: nested(rng, {'full', 'lk'})
    if BIG:
        yield lambda rng: growth(rng, 10050, 3)
        yield lambda rng: random_history(rng, {'full', 'reopen', 'lk'}, steps=30, cph=1000000)


# ---------------------------------------------------------------- C06
def crashes(rng, what=None, cph=None):
    """Every point of every operation; and histories that go on after dying."""
    H = Hist(WORK, rng, cph=rng.choice((0, 0, 1, 3, 7)) if cph is None else cph, open_=False, table=[EASY[0], EASY[2]], prior=rng.choice((0, 77)))
    start = what or rng.choice(('missing',) + BAD)
    data = bad_data(rng, H, start)
    if data is not None:
        H.place(H.path, data)
    if rng.random() < .5:
        H.dien()
    H.crashn()
    live, pre, height = [H.ncp], [], {H.ncp: H.cph}
    n = rng.randrange(4, 10)
    for i in range(n):
        if rng.random() < .15:
            H.reopen()
            if rng.random() < .5:      # no room left: the next header grows the file
                H.headers = None
                data = H.read()
                size, version, count = struct.unpack('<HHI', data[:8])
                H.place(H.path, data[:size + 80 * count])
                H.reopen()
        r = rng.random()
        tips = live[-2:]
        p = rng.choice(live) if rng.random() < .3 else rng.choice(tips)
        ts = H.ts0 + rng.randrange(100000)
        bits = H.table[ts % 2]
        if r < .65:
            k = H.mine(p, bits, ts)
            if rng.random() < .35:
                H.diec(k)
                if H.rng.random() < .5:
                    H.connect(k)
                    live.append(k)
                else:       # another header where the dying process was storing one
                    k2 = H.mine(p, bits, ts)
                    if H.crashc(k2).startswith('ok'):
                        live.append(k2)
            elif H.crashc(k).startswith('ok'):
                live.append(k)
        elif r < .75:
            H.crashc(H.mine(p, bits, ts, ok=False) if rng.random() < .5 else H.mine(p, H.table[(ts + 1) % 2], ts))
        elif r < .8:
            H.crashc(rng.choice(live))
        elif H.cph:
            k = H.add(raw_header(rng.randbytes(32), rng.randbytes(32), rng.getrandbits(31), EASY[0], 1), -1)
            (H.crashs if rng.random() < .6 else H.dies)(rng.randrange(H.cph), k)
        H.full()
    H.reopen()
    H.full()
    H.file()
    return H


def c06():
    for w in BAD * (20 if BIG else 2):
        yield lambda rng, w=w: crashes(rng, w)
    for _ in range(1500 if BIG else 200):
        yield lambda rng: crashes(rng, 'missing')
    for cph in (253, 254, 255, 65533, 65534) * (8 if BIG else 1):    # the count gets another byte
        yield lambda rng, cph=cph: crashes(rng, 'missing', cph)


# ---------------------------------------------------------------- C07
def set_reads(rng, kinds):
    cph = rng.choice((0, 1, 2, 5, 12, 30))
    H = Hist(WORK, rng, cph=cph, table=[EASY[0], EASY[2]], prior=1 << 200)
    ks = [H.ncp]
    for _ in range(rng.randrange(0, 6)):
        k, r = H.connect_new(rng.choice(ks))
        ks.append(k)
    junk = []

    def fresh_pre():
        prev, merkle, ts, nonce, version = rng.randbytes(32), rng.randbytes(32), rng.getrandbits(31), rng.getrandbits(32), 1
        if rng.random() < .4:      # sparse ones
            prev, merkle = (rng.choice((x, bytes(32), bytes(32), b'\xff' * 32, bytes(31) + b'\1', b'\1' + bytes(31))) for x in (prev, merkle))
            ts, nonce, version = rng.choice((ts, 0, 0, 2 ** 32 - 1)), rng.choice((nonce, 0, 0, 1, 2 ** 32 - 1)), rng.choice((0, 0, 1, -1, 1 << 24))
        k = H.add(raw_header(prev, merkle, ts, rng.choice(list(EASY.values()) + [0x1d00ffff, 0x1b0404cb]), nonce, version), -1)
        junk.append(k)
        return k

    def reads():
        for c in range(1, H.nchains() + 1):
            hi = H.chain(c).height
            if not kinds or 'at' in kinds:
                for x in range(-2, hi + 3):
                    H.at(c, x)
            if 'work' in kinds or 'holes' in kinds:
                for _ in range(6):
                    a, b = sorted((rng.randrange(0, hi + 2), rng.randrange(0, hi + 3)))
                    H.wr(c, a, b)
                    H.wt(c, rng.randrange(0, hi + 1))
            if 'holes' in kinds:
                for _ in range(4):
                    H.mtp(c, rng.randrange(-2, hi + 2))
        H.length()

    for _ in range(rng.randrange(3, 25)):
        r = rng.random()
        if r < .6 and cph:
            H.set(rng.randrange(cph), rng.choice(junk) if junk and rng.random() < .2 else fresh_pre(),
                  conv=rng.choice((bytes, bytearray)))
        elif r < .66:
            H.set(cph, H.ncp)
        elif r < .76:
            H.set(rng.choice((cph + 1, cph + 2, -1, -2, -cph - 1, len(H.headers), len(H.headers) - 1 if len(H.headers) - 1 > cph else -5, 1 << 20)),
                  fresh_pre())
        elif r < .84:
            H.setbad(rng.randrange(cph + 1), rng.choice((b'', bytes(79), bytes(81), rng.randbytes(160), 'x' * 80, None, 80, [0] * 80)))
        elif r < .92:
            k, _ = H.connect_new(rng.choice(ks))
            ks.append(k)
        else:
            H.reopen()
        if rng.random() < .3:
            reads()
        if 'p' in kinds:
            H.p()
    if cph and rng.random() < .6:
        order = list(range(cph))
        rng.shuffle(order)
        for x in order:
            H.set(x, fresh_pre())
    reads()
    H.reopen()
    reads()
    observe(H, kinds)
    return H


def needed_hole(rng):
    """All ancestors present but one that the difficulty rule needs."""
    rule = rng.choice(('mainnet', 'testnet'))
    if rule == 'mainnet':
        cph = rng.choice((600000, 504100, 4031, 2015))
    else:
        cph = rng.choice((1300000, 4031, 2015))
    H = Hist(WORK, rng, cph=cph, rule=rule, table=[0x207fffff])
    lo = max(0, cph - 2017)
    ks = [H.add(raw_header(rng.randbytes(32), rng.randbytes(32), H.ts0 - 600 * (cph - x), EASY[0], 0), -1) for x in range(lo, cph)]
    q = cph + 1
    if cph > 500000:
        need = {q - 147, q - 146, q - 145, q - 2, q - 3, q - 1, q - 100, q - 50}
    else:
        need = {q - 2016}
    need = sorted(x for x in need if lo <= x < cph)
    hole = rng.choice(need)
    H.setrun(lo, ks[:hole - lo])
    H.setrun(hole + 1, ks[hole - lo + 1:])
    ts = H.ts0 + rng.choice((600, 1200, 1201))
    for t in (H.ts0 + 600, H.ts0 + 1200):
        H.rb(1, q, t)
    H.connect(H.mine(H.ncp, EASY[0], H.ts0 + 600))
    H.p()
    if cph > 500000:
        H.mtp(1, hole + rng.randrange(0, 11))
        H.wr(1, hole - 3, hole + 1)
    H.set(hole, ks[hole - lo])
    for t in (H.ts0 + 600, H.ts0 + 1200):
        H.rb(1, q, t)
    return H


def c07():
    for _ in range(900 if BIG else 120):
        yield lambda rng: set_reads(rng, {'p', 'holes', 'at'})
    for _ in range(60 if BIG else 12):
        yield needed_hole
    for cph in (65535, 65536, 70001):
        yield lambda rng, cph=cph: high_sets(rng, cph)


# ---------------------------------------------------------------- C33
def checkpoints(rng):
    """One file opened with different checkpoints, among them ones it does not hold."""
    kinds = {'p', 'w', 'lk', 'at', 'work', 'full'}
    low = rng.choice((0, 0, 1, 3, 8))
    raws = []
    for x in range(low + 1):        # the headers up to the first checkpoint follow one another
        prev = dsha(raws[-1]) if raws else (bytes(32) if rng.random() < .5 else rng.randbytes(32))
        raws.append(raw_header(prev, rng.randbytes(32), rng.getrandbits(31), list(EASY.values())[rng.randrange(3)], rng.getrandbits(32)))
    H = Hist(WORK, rng, cph=low, cp_raw=raws.pop(), table=[EASY[0], EASY[1], EASY[2]], cache=rng.choice((None, None, 1, 4)), prior=rng.choice((0, 500)))
    work_of = lambda k: (1 << 256) // (target_of(struct.unpack('<I', H.raws[k - 1][72:76])[0]) + 1)
    pre = []
    for x, raw in enumerate(raws):
        pre.append(H.add(raw, pre[-1] if pre else -1))
    if pre:
        H.hdrs[0][1] = pre[-1]
    gap = rng.choice((0, 0, 1)) if pre else 0
    for x in rng.sample(range(low), low - gap):
        H.set(x, pre[x])
    line = pre + [H.ncp]            # by height, as far as what is stored is one chain
    others = []
    work = [0]
    for k in line:
        work.append(work[-1] + work_of(k))
    for phase in range(rng.randrange(2, 7)):
        for _ in range(rng.randrange(0, 7)):
            if not others and (rng.random() < .75 or phase == 0):
                k, _ = H.connect_new(line[-1])
                line.append(k)
                work.append(work[-1] + work_of(k))
            else:
                pool = line[max(H.cph, len(line) - 4):] + others[-5:]
                others.append(H.connect_new(rng.choice(pool or [H.ncp]))[0])
            observe(H, kinds)
        if rng.random() < .3 and H.cph:
            x = rng.randrange(H.cph)
            H.set(x, line[x])
        H.full()
        r = rng.random()
        if r < .85:
            height = rng.choice((rng.randrange(len(line)), rng.randrange(len(line)), len(line) - 1, H.cph, low))
            H.moved(line[height], height, rng.choice((work[height] + H.first[2], work[height], 0, 1 << 70)))
        elif r < .93:
            H.reopen()
        else:       # not there, or not where it belongs
            H.moved(rng.choice(line + others), rng.randrange(len(line) + len(others) + 9), rng.choice((0, 7)))
            line, work, others = [], [], [H.ncp]
        H.full()
        H.length()
        observe(H, kinds)
        queries(H, kinds, deep=False)
        if not line:
            break
    for _ in range(3):
        H.connect_new(H.ncp)
        observe(H, kinds)
    queries(H, kinds, deep=False)
    H.reopen()
    H.full()
    return H


def c33():
    for _ in range(3000 if BIG else 400):
        yield checkpoints


# ---------------------------------------------------------------- C34
def refusals(rng):
    """The system refuses to open, grow or map the file now and then."""
    H = Hist(WORK, rng, cph=rng.choice((0, 0, 1, 5, 300)), table=[EASY[0], EASY[2]], prior=rng.choice((0, 77)), open_=False,
             cache=rng.choice((None, None, 1, 4)))
    for _ in range(rng.choice((0, 0, 1, 2))):
        H.nf(rng.choice(('size', 'files', 'files2', 'map')))
    H.reopen(False)
    H.full()
    live, failed = [H.ncp], []
    kinds = {'full', 'at', 'lk', 'work'}
    for _ in range(rng.randrange(5, 16)):
        z = rng.random()
        if z < .45:
            H.trim()
        ts = H.ts0 + rng.randrange(1000)
        p = rng.choice(live[-2:]) if rng.random() < .6 else rng.choice(live)
        if z < .8:
            bits = H.table[ts % 2] if rng.random() < .85 else EASY[3]
            k = H.mine(p, bits, ts, ok=rng.random() < .95)
            if rng.random() < .15:
                k = rng.choice(live + failed)
            kind = rng.choice(('size', 'files', 'files2', 'map', 'gone'))
            if H.cf(k, kind).startswith('ok'):
                live.append(k)
            else:
                failed.append(k)
            observe(H, kinds)
            H.lk(k)
        elif z < .9:
            H.of(rng.choice(('files', 'files2', 'map')))
        if rng.random() < .5:
            k = H.mine(rng.choice(live), H.table[ts % 2], ts)
            if H.connect(k).startswith('ok'):
                live.append(k)
        if failed and rng.random() < .5:
            k = failed.pop(rng.randrange(len(failed)))
            if H.connect(k).startswith('ok'):
                live.append(k)
        if H.cph and rng.random() < .2:
            H.set(rng.randrange(H.cph), H.add(raw_header(rng.randbytes(32), rng.randbytes(32), 1, EASY[0], 1), -1))
        H.full()
        if rng.random() < .2:
            H.reopen()
    queries(H, kinds, deep=False)
    H.reopen()
    H.full()
    H.file()
    return H


def c34():
    for _ in range(2000 if BIG else 250):
        yield refusals


def high_sets(rng, cph):
    H = Hist(WORK, rng, cph=cph, table=[EASY[0]])
    xs = [0, 1, 2, 254, 255, 256, 4999, 5000, 5001, 65534, 65535, 65536, cph - 1] + [rng.randrange(cph) for _ in range(20)]
    ks, r = H.connect_new(H.ncp)
    for x in xs:
        if x < cph:
            H.set(x, H.add(raw_header(rng.randbytes(32), rng.randbytes(32), 1, EASY[0], 1), -1))
            for y in (x - 1, x, x + 1):
                H.at(1, y)
    H.connect_new(H.ncp)
    H.reopen()
    H.p()
    for x in xs:
        H.at(H.nchains(), x)
    return H


# ---------------------------------------------------------------- C08, C09
SPACINGS = ('normal', 'fast', 'slow', 'equal', 'jumpy', 'backwards', 'wild', 'hours')


def next_ts(rng, style, ts):
    d = {'normal': lambda: 600, 'fast': lambda: rng.randrange(0, 120), 'slow': lambda: rng.randrange(900, 2500), 'equal': lambda: 0,
         'jumpy': lambda: rng.choice((-5000, -1, 0, 1, 600, 1199, 1200, 1201, 9000)), 'backwards': lambda: -rng.randrange(0, 400),
         'wild': lambda: rng.randrange(-100000, 100000), 'hours': lambda: rng.choice((7199, 7200, 7201, 7200, 7200))}[style]()
    return min(max(ts + d, 0), 2 ** 32 - 1)


def compact(target):
    """Bits of a target of less than 24 bits, which are exact."""
    size = (target.bit_length() + 7) // 8
    word = target << 8 * (3 - size)
    return word | size << 24 if word < 0x800000 else word >> 8 | size + 1 << 24


def bits_pool(rng, coin_max):
    """Canonical bits not easier than the maximum target, at and around several sizes."""
    if rng.random() < .12:
        return [compact(rng.choice((rng.randrange(2, 300), rng.randrange(2, 1 << 16), rng.randrange(2, 1 << 23)))) for _ in range(rng.choice((1, 2, 5)))]
    e, m = coin_max >> 24, coin_max & 0xffffff
    pool = [coin_max]
    for _ in range(6):
        x = rng.choice((0, 0, 1, 2, 5))
        mm = rng.randrange(0x8000, 0x800000) if x else rng.randrange(0x8000, m + 1)
        pool.append(((e - x) << 24) | mm)
    return pool


def window(H, rng, lo, hi, style, pool, per_period, ts):
    """Set random headers at heights lo .. hi - 1; return the last timestamp."""
    ks = []
    bits = rng.choice(pool)
    for x in range(lo, hi):
        if per_period == 'random' or (per_period == 'period' and x % 2016 == 0) or (per_period == 'mixed' and rng.random() < .05):
            bits = rng.choice(pool)
        ts = next_ts(rng, style if style != 'varied' else rng.choice(SPACINGS), ts)
        ks.append(H.add(raw_header(bytes(32), rng.randbytes(32), ts, bits, x % 2 ** 32), -1))
    H.setrun(lo, ks)
    return ts


def reask(H, rng, pool, lo, cph, asks, n=12):
    """Ask, replace a header before the checkpoint, ask again, in no particular order of heights; now and then reopened.
    asks: (height, timestamp) pairs."""
    asks = list(asks)
    tops = sorted({x for x, _ in asks})
    for _ in range(n):
        some = rng.sample(asks, min(len(asks), 5))
        for x, t in some:
            H.rb(1, x, t)
        x = rng.choice(tops)
        for _ in range(rng.choice((1, 1, 3))):
            y = rng.choice((x - 1, x - 2, x - 3, rng.randrange(lo, cph), x - 145, x - 147, x - rng.randrange(1, 30)))
            if lo <= y < cph:
                old = H.headers.raw_header_at_height(H.chain(1), y)
                ts, = struct.unpack('<I', old[68:72])
                bits, = struct.unpack('<I', old[72:76])
                if rng.random() < .4:
                    ts = next_ts(rng, rng.choice(SPACINGS), ts)
                if rng.random() < .7:
                    bits = rng.choice(pool + [H.gbits, H.gbits])
                H.set(y, H.add(raw_header(bytes(32), rng.randbytes(32), ts, bits, rng.getrandbits(32)), -1))
        if rng.random() < .1:
            H.reopen()
        for x, t in rng.sample(some, len(some)):
            H.rb(1, x, t)
            if x > lo + 12 and rng.random() < .3:
                H.mtp(1, x - 1)


def clamped_period(rng):
    """Time between the first and last header of a 2016 period, around each clamp."""
    f = 2016 * 600
    return rng.choice((f // 4 - 1, f // 4, f // 4 + 1, f * 4 - 1, f * 4, f * 4 + 1, f, f - 1, f + 1, 0, -50, 2 ** 31, rng.randrange(f * 5)))


def retarget(rng, rule, zone=None):
    """Heights around a multiple of 2016, where the fortnightly rule looks 2016 back."""
    top = {'mainnet': 504031, 'testnet': 1188697, 'scaling': 2200}[rule]
    coin = real_or_easy(rng, rule)
    zones = [2016, 4032, 2016 * rng.randrange(1, top // 2016 + 1), 2016 * (top // 2016)] if rule != 'scaling' else [2016]
    if rule == 'mainnet':
        zones += [2016 * 237, 2016 * 238, 2016 * 239, 2016 * 250] + [2016 * rng.randrange(238, 251)] * 3
    elif rule == 'testnet':
        zones += [2016 * (1188697 // 2016)] * 2
    q = rng.choice(zones)
    cph = q + rng.choice((1, 2, 5))
    H = Hist(WORK, rng, cph=cph, rule=rule, coin=coin, table=[coin.genesis_bits if coin else 0x207fffff])
    pool = bits_pool(rng, H.gbits)
    ts0 = rng.choice((1300000000, 1, 2 ** 31 - 1000, 3000000000))
    lo = max(0, q - 2018)
    ts = window(H, rng, lo, q - 2014, rng.choice(SPACINGS[:5]), pool, 'random', ts0)
    prior_ts = struct.unpack('<I', H.raws[[k for k in range(len(H.hdrs))][1 + (q - 2016 - lo)]][68:72])[0]
    window(H, rng, max(q - 2014, q - 170), q - 1, rng.choice(('varied', 'hours', 'hours') + SPACINGS[:4]), pool, rng.choice(('random', 'period')), ts)
    if rng.random() < .5:
        # the period has its usual length whatever the time between its last blocks is
        prior_ts = min(max(prior_ts, struct.unpack('<I', H.raws[-1][68:72])[0] - 2016 * 600), 2 ** 32 - 1)
        H.set(q - 2016, H.add(raw_header(bytes(32), rng.randbytes(32), prior_ts, rng.choice(pool), rng.getrandbits(32)), -1))
    for _ in range(8):
        # replace the last header of the period with other timestamps and bits
        period, bits = rng.choice(((clamped_period(rng), rng.choice(pool)), exact_step(rng)))
        last = min(max(prior_ts + period, 0), 2 ** 32 - 1)
        k = H.add(raw_header(bytes(32), rng.randbytes(32), last, bits, rng.getrandbits(32)), -1)
        H.set(q - 1, k)
        for t in (last + 600, last + 1200, last + 1201, last):
            H.rb(1, q, t)
    window(H, rng, q, cph, 'varied', pool, 'random', last)
    asks = [(x, t) for x in range(q - 2, cph + 2) for t in (last + 600, last + 5000)]
    for x, t in asks:
        H.rb(1, x, t)
    if rng.random() < .4:
        reask(H, rng, pool, q - 1, cph, asks, 6)
    return H


def exact_step(rng):
    """A period and bits whose new target is a whole number of steps of the bits; sometimes just short of one.  Mostly such
    that binary fractions would not do."""
    q = 2016 * 600
    for _ in range(60):
        a = rng.randrange(25, 401)    # hundredths of the usual period
        step = 100 // math.gcd(a, 100)
        lo = 0x8000 // step + 1
        mant = rng.randrange(lo, max(0x800000 * 100 // max(a, 100) // step, lo + 1)) * step
        period, size = 12096 * a, rng.randrange(6, 0x1d)
        t = mant << 8 * (size - 3)
        exact = t * period // q
        if exact >> 8 * (size - 4) != min(int(t * (period / q)), int(t / q * period), int(t / (q / period))) >> 8 * (size - 4):
            break
    return period - rng.choice((0, 0, 0, 1)), size << 24 | mant


def real_or_easy(rng, rule):
    if rng.random() < .5:
        return {'mainnet': bx.Bitcoin, 'testnet': rng.choice((bx.BitcoinTestnet, bx.BitcoinRegtest)), 'scaling': bx.BitcoinScalingTestnet}[rule]
    return bx.Coin('easy', raw_header(bytes(32), rng.randbytes(32), 1, rng.choice((0x207fffff, 0x1d00ffff, 0x1f123456, 0x1c7fffff, 0x1e008000)), 1).hex(),
                   REAL[rule].required_bits, 0, 5, 0x80, b'\1\2\3\4', b'\4\3\2\1', 'vf')


def recent(rng, rule, at=None):
    """The 144-block, emergency or minimum-difficulty rule at many heights of a random window."""
    coin = real_or_easy(rng, rule)
    if at is None:
        at = rng.choice({'mainnet': (478558, 504031, rng.randrange(480000, 504000), 600000, rng.randrange(504200, 900000)),
                         'testnet': (1188697, 1188697, rng.randrange(1188900, 1500000), 400000),
                         'scaling': (2200, 2200, rng.randrange(2400, 50000))}[rule])
    cph = at + rng.choice((3, 20, 60))
    H = Hist(WORK, rng, cph=cph, rule=rule, coin=coin, table=[coin.genesis_bits])
    pool = bits_pool(rng, H.gbits)
    lo = max(0, at - 200)
    style = rng.choice(SPACINGS + ('varied',) * 3)
    ts = window(H, rng, lo, cph, style, pool, rng.choice(('random', 'period', 'mixed', 'mixed')), rng.choice((1400000000, 2 ** 31 - 5000, 3500000000, 100)))
    span = list(range(max(at - 30, lo + 150), cph + 2))
    asks = []
    for x in rng.sample(span, min(len(span), 30)) + [at - 1, at, at + 1]:
        if x - 147 < lo:
            continue
        prev = H.rng.choice((0, 600))
        raw = H.headers.raw_header_at_height(H.chain(1), x - 1)
        t = struct.unpack('<I', raw[68:72])[0]
        for d in rng.sample((0, 600, 1199, 1200, 1201, 100000, -1000), 3):
            asks.append((x, min(max(t + d, 0), 2 ** 32 - 1)))
            H.rb(1, *asks[-1])
        H.mtp(1, x - 1)
    if rng.random() < .4:
        reask(H, rng, pool, lo, cph, asks)
    return H


def min_difficulty(rng, rule):
    """Runs of minimum-difficulty blocks back to a multiple of 2016."""
    coin = real_or_easy(rng, rule)
    g = coin.genesis_bits
    base = 2016 * (rng.randrange(0, 500) if rule == 'testnet' else rng.choice((0, 1)))
    n = rng.choice((3, 10, 60))
    cph = base + n if rule == 'testnet' or base == 0 else min(base + n, 2190)
    H = Hist(WORK, rng, cph=cph, rule=rule, coin=coin, table=[g])
    pool = bits_pool(rng, H.gbits)
    lo = max(0, base - 5)
    ks = []
    ts = 1400000000
    for x in range(lo, cph):
        ts += rng.choice((600, 1200, 1201, 5000))
        bits = g if rng.random() < rng.choice((.3, .8, 1)) else rng.choice(pool)
        ks.append(H.add(raw_header(bytes(32), rng.randbytes(32), ts, bits, x), -1))
    H.setrun(lo, ks)
    asks = []
    for x in range(lo + 2, cph + 2):
        raw = H.headers.raw_header_at_height(H.chain(1), x - 1)
        t = struct.unpack('<I', raw[68:72])[0]
        for d in (0, 1199, 1200, 1201, 90000):
            if x % 2016 or x < 2016:
                H.rb(1, x, t + d)
                asks.append((x, t + d))
    reask(H, rng, pool, lo, cph, asks, 20)
    return H


def real_rule_connects(rng, kinds=('p',), rule=None, at=None):
    """Growth and forks after the checkpoint under a real rule with an easy maximum target: required bits on forks."""
    rule = rule or rng.choice(('mainnet', 'testnet', 'scaling'))
    if at is None:
        at = rng.choice({'mainnet': (2014, 478550, 504025, 600000), 'testnet': (2010, 1188690, 1300000), 'scaling': (2195, 5000)}[rule])
    H = Hist(WORK, rng, cph=at, rule=rule, table=[0x207fffff])
    lo = max(0, at - 160)
    if at < 4032 and rule != 'scaling':
        lo = 0
    pool = [0x207fffff, 0x207fffff, 0x204fffff, 0x201fffff] if rng.random() < .7 else [0x207fffff]
    ts = window(H, rng, lo, at, rng.choice(('normal', 'fast', 'slow', 'jumpy', 'hours', 'hours')), pool, 'mixed', H.ts0 - 200 * 600)
    if at > 4032:
        q = (at + 20) // 2016 * 2016
        if q - 2018 < lo - 20:
            window(H, rng, q - 2018, q - 2014, 'normal', pool, 'mixed', H.ts0 - 2300 * 600)
    live = [(H.ncp, H.ts0)]
    for _ in range(25):
        p, pts = live[-1] if rng.random() < .75 else rng.choice(live)
        t = min(max(next_ts(rng, rng.choice(SPACINGS), pts), 1), 2 ** 32 - 1)
        prev = H.raws[p - 1]
        try:
            _, chain = H.headers.lookup(H.hash(prev))
            height = H.headers.lookup(H.hash(prev))[0].height + 1
            bits = H.headers.required_bits(chain, height, t)
            if not 0 < target_of(bits) < 1 << 256 or target_of(bits) < 1 << 240:
                continue
        except Exception:
            continue
        if rng.random() < .1:
            bits = rng.choice((0x207fffff, 0x203fffff))
        k = H.mine(p, bits, t)
        if H.connect(k).startswith('ok'):
            live.append((k, t))
        observe(H, kinds)
    if 'rb' in kinds:
        for c in range(1, H.nchains() + 1):
            top = H.chain(c).height
            for x in range(max(at - 3, lo + 150), top + 2):
                H.rb(c, x, rng.choice(live)[1] + rng.choice((0, 600, 1201)))
                H.mtp(c, x - 1)
    return H


def c08():
    for _ in range(220 if BIG else 30):
        yield lambda rng: retarget(rng, 'mainnet')
        yield lambda rng: recent(rng, 'mainnet')
    for at in (478558, 504031):
        for _ in range(30 if BIG else 5):
            yield lambda rng, at=at: recent(rng, 'mainnet', at)
    for _ in range(100 if BIG else 20):
        yield lambda rng: real_rule_connects(rng, {'rb'}, 'mainnet')
    for _ in range(40 if BIG else 8):
        yield low_heights


def low_heights(rng):
    """Heights from 0: genesis bits, the first period, short median windows."""
    coin = real_or_easy(rng, 'mainnet')
    H = Hist(WORK, rng, cph=40, rule='mainnet', coin=coin, table=[coin.genesis_bits])
    window(H, rng, 0, 40, 'varied', bits_pool(rng, H.gbits), 'random', 1300000000)
    for x in range(-2, 0):
        H.mtp(1, x)
    for x in range(0, 42):
        H.rb(1, x, 1400000000)
        if x < 41:
            H.mtp(1, x)
    return H


def c09():
    for rule in ('testnet', 'scaling'):
        for _ in range(150 if BIG else 16):
            yield lambda rng, rule=rule: retarget(rng, rule)
            yield lambda rng, rule=rule: recent(rng, rule)
            yield lambda rng, rule=rule: min_difficulty(rng, rule)
        for _ in range(60 if BIG else 12):
            yield lambda rng, rule=rule: real_rule_connects(rng, {'rb'}, rule)


def broken(what, H=None):
    """A history, of which nothing but its end may be known."""
    if H is None:
        e = ['undrivable', what]
        return dict(cfg=dict(cp=1, cph=0, prior='', rule='table', table=['207fffff'], gbits='207fffff', fieldhash=False),
                    hdrs=[[raw_header(bytes(32), bytes(32), 1, 0x207fffff, 1).hex(), -1]], ev=[e])
    H.ev.append(['undrivable', what])
    return H.done()


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    makers = list({'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C33': c33, 'C34': c34}[PID]())
    numbers = [k for k in range(len(makers)) if (k % 4 == 1) == HALF]
    procs = 2 if HALF else 6
    me = os.getpid()

    def one(k):
        rng = random.Random(f'{SEED}/{PID}/{k}')
        Hist.current = None
        try:
            return makers[k](rng).done()
        except Exception as e:      # the library in a state where it cannot be driven any further
            traceback.print_exc()
            if Hist.current is None and not in_library(e):
                raise
            return broken(f'{type(e).__name__}: {e}'[:200], Hist.current)

    def job(n, x):
        if os.getpid() == me:       # the process died of signal x
            with open(f'{out}.{n}', 'r+') as f:
                k = sum(1 for _ in f)
                f.write(json.dumps(broken(f'died of signal {x}')) + '\n')
                return k + 1
        with open(f'{out}.{n}', 'a') as f:
            for k in numbers[n::procs][x:]:
                f.write(json.dumps(one(k)) + '\n')
                f.flush()

    in_processes(job, [0] * procs)
    events = {}
    with open(out, 'w') as f:
        for n in range(procs):
            with open(f'{out}.{n}') as g:
                for ln in g:
                    f.write(ln)
                    for e in json.loads(ln)['ev']:
                        events['events_' + e[0]] = events.get('events_' + e[0], 0) + 1
                        if e[0] == 'c':
                            key = 'connect_' + e[-1].split(' ')[0]
                            events[key] = events.get(key, 0) + 1
                        elif e[0] == 'moved':
                            events['moved_' + e[-1]] = events.get('moved_' + e[-1], 0) + 1
            os.unlink(f'{out}.{n}')
    events['histories'] = len(numbers)
    with open(out + '.stats', 'w') as f:
        json.dump(events, f)


main()
