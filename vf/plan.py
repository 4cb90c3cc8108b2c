"""What each check runs: specifications model checked, drivers, judges."""

PLAN = {}


def upto(a, b):
    return '{' + ', '.join(map(str, range(a, b + 1))) + '}'


def check(pid):
    def deco(f):
        PLAN[pid] = f
        return f
    return deco


@check('C10')
def c10(c):
    c.mc('MC_Self', dict(Count=2, Sizes='{2, 8, 33}', Deep='TRUE') if c.thorough else dict(Count=1, Sizes='{3}', Deep='FALSE'))
    c.mc('MC_CompactBits', dict(Base=4, MaxDigits=6 if c.thorough else 5))
    if c.thorough:
        c.mc('MC_CompactBits', dict(Base=6, MaxDigits=5))
    c.judge('J_Work', c.drive('d_work.py'))


@check('C11')
def c11(c):
    c.mc('MC_Wire', dict(Base=4, MaxNat=65535, MaxLen=7 if c.thorough else 6))
    if c.thorough:
        c.mc('MC_Wire', dict(Base=6, MaxNat=1679615, MaxLen=5))
    c.judge('J_Wire', c.drive('d_wire.py'))


def headers(pid, emit, works='{1}', extra=None):
    @check(pid)
    def run(c):
        if extra:
            extra(c)
        cases = c.mc('MC_Chains', dict(MaxHeaders=emit + (1 if c.thorough else 0), Works=works, Emit='TRUE')) if emit else []
        c.judge_histories('J_Headers', c.drive('d_headers.py', cases))


def mc_chains(c):
    c.mc('MC_Chains', dict(MaxHeaders=6 if c.thorough else 5, Works='{1, 2}', Emit='FALSE'))


def mc_index(c):
    c.mc('MC_Index', dict(MaxHeaders=3, HashLen=3, ShortLen=2, CacheMax=2))
    if c.thorough:
        c.mc('MC_Index', dict(MaxHeaders=4, HashLen=3, ShortLen=2, CacheMax=3))
        c.mc('MC_Index', dict(MaxHeaders=2, HashLen=4, ShortLen=3, CacheMax=1))


def mc_store(c):
    c.mc('MC_Store', dict(CP=1, MaxStored=4 if c.thorough else 3, GrowBy=2, CountFirst='FALSE', EmptyFatal='FALSE', CloseFirst='FALSE', Stale='TRUE'))


def mc_difficulty(*rules):
    def f(c):
        for rule in rules:
            c.mc('MC_Difficulty', dict(Rule=f'"{rule}"', MaxLen=11 if c.thorough else 9, Deltas='{600, 0, 7300, 50000}' if c.thorough else '{600, 7300, 50000}'))
    return f


headers('C01', 4, '{1, 2}', mc_chains)
headers('C02', 5, '{1}', mc_chains)
headers('C03', 4, '{1}', mc_index)
headers('C04', 4, '{1, 2}', mc_chains)
headers('C05', 4, '{1, 2}', mc_store)
headers('C06', 0, extra=mc_store)
headers('C07', 0, extra=mc_store)
headers('C08', 0, extra=mc_difficulty('fortnightly', 'emergency', 'window'))
headers('C09', 0, extra=mc_difficulty('testnet', 'scaling'))
headers('C34', 0, extra=mc_store)
headers('C33', 0, extra=lambda c: c.mc('MC_Moved', dict(MaxHeaders=5 if c.thorough else 4, Works='{1, 2}', Emit='FALSE')))


def mc_script(c):
    t = c.thorough
    c.mc('MC_Script', dict(Base=10, MaxDirect=1, SmallInts=1, MaxLen=5, PairLen=2))
    if t:
        c.mc('MC_Script', dict(Base=12, MaxDirect=2, SmallInts=2, MaxLen=5, PairLen=3))


def tx_check(pid):
    @check(pid)
    def run(c):
        c.mc('MC_Tx', dict(MaxIns=2, MaxOuts=3 if c.thorough else 2))
        c.judge('J_Tx', c.drive('d_tx.py'))


for p in ('C12', 'C13', 'C14'):
    tx_check(p)


@check('C15')
def c15(c):
    mc_script(c)
    c.judge('J_Script', c.drive('d_script.py'))


@check('C16')
def c16(c):
    mc_script(c)
    plans = c.mc('MC_Readers', dict(Base=12 if c.thorough else 10, MaxDirect=1, SmallInts=1, MaxLen=3 if c.thorough else 2, MaxSteps=3))
    c.judge('J_Script', c.drive('d_script.py', plans))


@check('C17')
def c17(c):
    c.mc('MC_Asm', dict(Pieces=3 if c.thorough else 2))
    c.judge('J_Script', c.drive('d_script.py'))


@check('C18')
def c18(c):
    c.mc('MC_Outputs', dict(MaxPieces=4 if c.thorough else 3, MultiLen=5 if c.thorough else 4))
    c.judge('J_Script', c.drive('d_script.py'))


@check('C19')
def c19(c):
    for a, b, n in ((5, 3, 7), (16, 10, 4), (7, 6, 5)) if c.thorough else ((5, 3, 6), (16, 10, 3)):
        c.mc('MC_Base58', dict(A=a, B=b, MaxLen=n))
    c.judge('J_Text', c.drive('d_text.py'))


@check('C20')
def c20(c):
    c.mc('MC_Cashaddr', dict(MaxLen=112, F=2, T=3, MaxSym=8 if c.thorough else 7, MaxOct=5 if c.thorough else 4))
    if c.thorough:
        c.mc('MC_Cashaddr', dict(MaxLen=2, F=3, T=4, MaxSym=6, MaxOct=4))
    c.judge('J_Text', c.drive('d_text.py'))


@check('C21')
def c21(c):
    t = c.thorough
    c.mc('MC_Der', dict(Edits=2, Limit=200, W=1))
    c.mc('MC_Base64', dict(Bytes_='{0, 1, 3, 63, 64, 128, 255}', Chars='{61, 65, 66, 81, 47, 43, 33, 122}', MaxBytes=5, MaxText=6 if t else 5))
    c.mc('MC_Ecdsa', dict(Ds='{1, 30}', Zs='{0, 1}'))
    c.judge('J_Keys', c.drive('d_keys.py'))


@check('C22')
def c22(c):
    c.mc('MC_Curve', dict(Firsts=upto(0, 8)))
    c.judge('J_Keys', c.drive('d_keys.py'))


@check('C23')
def c23(c):
    c.mc('MC_KeyOps', dict(Depth=3 if c.thorough else 2, Values='{0, 1, 2, 15, 30, 31, 32}'))
    c.judge('J_Keys', c.drive('d_keys.py'))


@check('C24')
def c24(c):
    c.mc('MC_Ecdsa', dict(Ds=upto(1, 30), Zs=upto(0, 30)) if c.thorough else dict(Ds='{1, 2, 17, 30}', Zs='{0, 1, 30}'))
    c.judge('J_Keys', c.drive('d_keys.py'))


@check('C25')
def c25(c):
    t = c.thorough
    c.mc('MC_Ecies', dict(Ds=upto(1, 30) if t else '{1, 2, 17, 30}', Es='{1, 5, 29}', Msgs='{0, 1, 2, 3}', MaxMsg=4 if t else 3, BS0=2))
    if t:
        c.mc('MC_Ecies', dict(Ds='{1, 17}', Es='{5}', Msgs='{0, 1, 3, 4}', MaxMsg=4, BS0=3))
    c.judge('J_Keys', c.drive('d_keys.py'))
    c.judge('J_Keys', c.drive('d_keys.py', name='pyaes', aes='pyaes'))


@check('C26')
def c26(c):
    c.mc('MC_Bip32', dict(Depth=2, Secrets=upto(1, 30) if c.thorough else '{1, 2, 17, 30}', Firsts=upto(0, 33), Half=3))
    c.judge('J_Keys', c.drive('d_keys.py'))


@check('C27')
def c27(c):
    c.mc('MC_Path', dict(Limit=12, MaxText=7 if c.thorough else 6, MaxPath=3))
    c.judge('J_Text', c.drive('d_text.py'))


@check('C28')
def c28(c):
    for d in (0, 1, 2):
        c.mc('MC_Bip39', dict(D=d, WB=3, R=2, MaxWords=4 if c.thorough else 3))
    c.mc('MC_Bip39', dict(D=0, WB=3, R=2, MaxWords=4))
    if c.thorough:
        c.mc('MC_Bip39', dict(D=2, WB=4, R=3, MaxWords=3))
        c.mc('MC_Bip39', dict(D=2, WB=2, R=3, MaxWords=6))
    c.judge('J_Words', c.drive('d_words.py'))


@check('C29')
def c29(c):
    for n, m in ((7, 300), (10, 1000), (11, 1024), (3, 1)) + (((26, 16384), ) if c.thorough else ()):
        c.mc('MC_Electrum', dict(EN=n, Limit=m))
    c.judge('J_Words', c.drive('d_words.py'))


@check('C30')
def c30(c):
    c.mc('MC_Values', dict(Secrets='{1, 2, 3, 29, 30}' if c.thorough else '{1, 30}'))
    c.judge('J_Values', c.drive('d_values.py'))


@check('C31')
def c31(c):
    c.mc('MC_Values', dict(Secrets='{1, 30}' if c.thorough else '{5}'))
    c.judge('J_Values', c.drive('d_values.py'))


@check('C32')
def c32(c):
    c.mc('MC_Logs', dict(MaxW=1000 if c.thorough else 200, Bits=6 if c.thorough else 5))
    c.judge('J_Work', c.drive('d_work.py'))


MC_TRACE = 'TLA+ specification model checked with TLC; traces of the real code validated against it with TLC'
HIST = ('Chain algebra (partition, ancestry, work, reopening) checked exhaustively on small trees; every tree of the bound is replayed '
        'into the real Headers class together with seeded random histories, and every outcome is validated against the specification. ')
NOTES = {
    'C01': (MC_TRACE, HIST + 'Difficulty rule is a parameter of the property: two synthetic rules and the three real ones are used.'),
    'C02': (MC_TRACE, HIST),
    'C03': (MC_TRACE, HIST + 'The hash index (prefix search and bounded cache) has its own model, checked exhaustively; colliding and straddling '
            'prefixes are produced with a coin whose header hash can be chosen.'),
    'C04': (MC_TRACE, HIST),
    'C05': (MC_TRACE, HIST + 'File layout model checked with crash points; unusable files of every kind included.'),
    'C06': (MC_TRACE, 'The file protocol with a crash between any two primitive changes is model checked; in the real code every distinct file '
            'content between two bytecodes of an operation (and torn header writes) is reopened and validated. Crash = process death.'),
    'C07': (MC_TRACE, HIST + 'Holes in every needed ancestor position.'),
    'C33': (MC_TRACE, HIST + 'Every other checkpoint of every small tree model checked; the real code is taken through sequences of higher, lower and absent checkpoints.'),
    'C34': (MC_TRACE, 'The file protocol, with the system refusing to grow or map the file at any time, is model checked; the real code is driven through histories '
            'in which limits on file size and open files, a file moved away and mapping errors strike connects, openings and creations.'),
    'C08': (MC_TRACE, 'Rules checked for small intervals; the real rules are validated on generated windows around every activation height, clamp and tie.'),
    'C09': (MC_TRACE, 'Rules checked for small intervals; the real rules are validated on generated windows around every activation height, '
            'the 20 minute boundary and runs of minimum-difficulty headers.'),
    'C10': (MC_TRACE, 'Encode/decode theorems exhaustive for a small base (same definitions, Base a constant); every boundary class of '
            'bits and targets plus seeded random ones executed on the real code and judged by TLC. Trusts the Java evaluation of BigNat.'),
    'C12': (MC_TRACE, 'Round trip, truncation and size theorems exhaustive for small transactions in a small base; boundary and seeded random '
            'transactions, streams, mutations and every truncation executed on the real code and judged by TLC.'),
    'C13': (MC_TRACE, 'That the signed parts agree exactly when the committed parts agree is checked over all pairs of small transactions with an '
            'injective hash; real hashes for every hash type, and for transactions changed between hashes, judged by TLC.'),
    'C14': (MC_TRACE, 'Finality theorems exhaustive for small numbers; real predicates and JSON for every flag combination judged by TLC.'),
    'C15': (MC_TRACE, 'Push, number and drop theorems exhaustive over all short strings of a small base (same definitions); every length class and '
            'boundary executed on the real code and judged by TLC.'),
    'C16': (MC_TRACE, 'Coverage and truncation theorems exhaustive over all short scripts of a small base; all plans of several readers of one script replayed; real scripts of every opcode, '
            'push form, cut and mutation judged by TLC.'),
    'C17': (MC_TRACE, 'Text model (names, numbers, hex, signatures) checked on all short sequences of interesting pieces; real texts judged by TLC. '
            'Words of non-ASCII decimal digits are not explored.'),
    'C18': (MC_TRACE, 'Classification model checked on all short sequences of pieces with noise inserted anywhere; real scripts near every '
            'template judged by TLC, for every coin, in different orders.'),
    'C19': (MC_TRACE, 'Change of base checked on all short digit strings of small bases; real texts, near-valid texts and minikeys judged by TLC.'),
    'C20': (MC_TRACE, 'The checksum polynomial is model checked to tell apart texts differing in up to three characters; every single-character '
            'change of real addresses, every version byte, padding, prefix and length judged by TLC.'),
    'C21': (MC_TRACE, 'DER and base64 models checked on all near-valid short encodings; every malformed class, every value of the leading bytes and '
            'seeded random encodings judged by TLC. Surplus base64 padding and left-over bits may be accepted or refused.'),
    'C22': (MC_TRACE, 'Key encodings checked on every byte string of the toy curve; every prefix, length, version, edge secret and damaged form on '
            'the real code judged by TLC. Hex with embedded white space is not explored.'),
    'C23': (MC_TRACE, 'The mirror between private and public arithmetic is model checked on the toy curve over all short histories; random histories '
            'aimed at cancellation and range edges on the real code judged by TLC, all keys observed again at the end.'),
    'C24': (MC_TRACE, 'Sign, verify and recover checked for all keys, hashes and nonces of the toy curve; real signatures judged by relation (canonical, low, '
            'satisfies the equation, recovers), all combinations of signature, key, message, hasher and address judged by TLC.'),
    'C25': (MC_TRACE, 'Tampering theorems on the toy curve with a toy cipher; every single-byte change, cut and extension of real messages and authentic '
            'messages with bad padding judged by TLC, with both AES implementations.'),
    'C26': (MC_TRACE, 'Mirror, safe child and serialization checked on the toy curve with a hash taking every value; real histories judged by TLC. HMAC results that '
            'do not occur in practice are forced in the standard library. Depth over 255 is not explored.'),
    'C27': (MC_TRACE, 'The path grammar is model checked on all short texts with a small limit; real texts and lists judged by TLC. '
            'Digit strings of over 4,300 characters are not explored.'),
    'C28': (MC_TRACE, 'That valid word sequences and entropies correspond is model checked for small word sizes and several digests; real mnemonics '
            'in every bundled list, with every checksum, spacing, case and composition judged by TLC. Random draws are forced to edge values.'),
    'C29': (MC_TRACE, 'The old encoding is model checked for small lists and limits; real seeds, word sequences around the limit and generated '
            'mnemonics judged by TLC. Random draws are forced to edge values. Hex seeds with embedded white space are not explored.'),
    'C30': (MC_TRACE, 'What a value stands for is a TLA+ operator, checked to be an equivalence over all toy keys and forms; all pairs of a pool of near-equal real '
            'values, made in every way, judged by TLC. Hash values of unequal values are not judged.'),
    'C31': (MC_TRACE, 'Printed forms computed by the specification; secrets are searched for in every printed form of generated private keys.'),
    'C32': (MC_TRACE, 'Logarithm by repeated squaring model checked exact for small works; real doubles judged by TLC as exact fractions. The zero target (bits 0) is not judged.'),
    'C11': (MC_TRACE, 'Wire format theorems exhaustive for a small base; boundary and seeded random values, streams and truncations '
            'executed on the real code and judged by TLC. Trusts the Java evaluation of BigNat and SHA/RIPEMD.'),
}
