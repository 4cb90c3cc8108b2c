"""Driver side of the conformance checks: runs cases on the real bitcoinX, records outcomes.

A case is (op, args); args hold only JSON strings, booleans, small integers and lists (TLC's integers are
32 bit, so anything that may be larger is text).  OPS[op](args) runs the real code and returns a canonical
outcome string, which the specification is later compared with.
"""
import json, os, random, resource, signal, sys, traceback

import bitcoinx
assert os.path.realpath(bitcoinx.__file__).startswith('/repo/'), bitcoinx.__file__

OPS = {}
REL = set()     # operations whose outcome is a list of texts, ['!', name] for an exception
SURE = set()    # operations that must give the same outcome in every process
N_PROCS = 4
HALF = int(os.environ.get('VF_HALF', 0))    # which of the two interpreters of core.drive this is


def op(f):
    OPS[f.__name__.lstrip('_')] = f
    return f


def rel(f):
    REL.add(f.__name__.lstrip('_'))
    return op(f)


def sure(f):
    SURE.add(f.__name__.lstrip('_'))
    return f


KEEPING = False     # set in every other process


def kept(f):
    """Makes something that cannot change: in every other process one object serves all cases it is made for,
    elsewhere each case has its own."""
    made = {}

    def g(*args):
        if not KEEPING:
            return f(*args)
        if args not in made:
            if len(made) >= 2000:
                made.clear()
            made[args] = f(*args)
        return made[args]
    return g


def script(b):
    """A Script of the bytes, which in every other process come in a buffer that is written over afterwards."""
    import bitcoinx
    if not KEEPING:
        return bitcoinx.Script(b)
    buffer = bytearray(b)
    s = bitcoinx.Script(buffer)
    buffer[:] = bytes(x ^ 0x55 for x in buffer)
    return s


def must(condition):
    """assert, whatever the interpreter's options"""
    if not condition:
        raise AssertionError


def spoil(v):
    """Takes apart something that is the caller's own."""
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append(v[0] if v else 0)
            v.reverse()
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.popitem()
        v['spoiled'] = 1
    elif isinstance(v, bytearray):
        v.reverse()
        v.append(1)


def again(f, text=None, end=spoil):
    """f(), asked once more after a first result was taken apart by its owner."""
    text = text or enc
    r = f()
    t = text(r)
    end(r)
    r = f()
    must(text(r) == t)
    return r


class Timeout(BaseException):
    pass


def on_alarm(*args):
    raise Timeout


def enc(v):
    """Canonical text of a value."""
    if v is None:
        return 'n'
    if v is True:
        return 't'
    if v is False:
        return 'f'
    if isinstance(v, int):
        return f'i:{int(v)}'
    if isinstance(v, (bytes, bytearray, memoryview)):
        return 'b:' + bytes(v).hex()
    if isinstance(v, str):
        return 's:' + v
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(enc(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(f'{k}={enc(v[k])}' for k in sorted(v)) + '}'
    return '?' + type(v).__name__


def outcome(f, *excs):
    """enc(f()), or the first of the documented exception classes it raised, or !!<other>."""
    try:
        return enc(f())
    except Timeout:
        return '!timeout'
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        for c in excs:
            if isinstance(e, c):
                return '!' + c.__name__
        return '!!' + type(e).__name__


def run_case(name, args):
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        r = OPS[name](args)
        if name in REL:
            return r
        if not isinstance(r, str):
            r = enc(r)
        return r
    except Timeout:
        return ['!', 'timeout'] if name in REL else '!timeout'
    except Exception as e:
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
        if name in REL:
            return ['!', type(e).__name__]
        return '!!' + type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


DEADLY = {signal.SIGILL, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGSEGV}
MAX_DEATHS = 50


def in_library(e):
    """Whether the exception came out of the library."""
    tb = e.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.dirname(bitcoinx.__file__) + os.sep):
            return not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError))
        tb = tb.tb_next
    return False


def undrivable(kind, e, tb):
    """The library failed at something that making the cases depends upon."""
    traceback.print_exception(kind, e, tb)
    if not in_library(e):
        return
    sys.stderr.flush()
    with open(sys.argv[2], 'w') as f:
        f.write(json.dumps(dict(op='undrivable', a=[f'{kind.__name__}: {e}'[:200]], r='!!' + kind.__name__)) + '\n')
    with open(sys.argv[2] + '.stats', 'w') as f:
        json.dump(dict(executions=1, sure=[]), f)
    os._exit(0)


def in_processes(job, starts):
    """job(n, start) in a child process for each n, from starts[n].  If it dies of a fault, job(n, signal)
    in this process records that and returns where to start again."""
    pids, bad, deaths = {}, [], 0

    def begin(n, start):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                job(n, start)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = n

    for n, start in enumerate(starts):
        begin(n, start)
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        n, code = pids.pop(pid), os.waitstatus_to_exitcode(status)
        if -code in DEADLY:
            deaths += 1
            start = job(n, -code)
            if deaths < MAX_DEATHS:     # there is no use in more
                begin(n, start)
        elif code:
            bad.append(code)
    if bad:
        sys.exit(f'driver process ended with {bad}')


def load():
    sys.excepthook = undrivable
    with open(sys.argv[1]) as f:
        cfg = json.load(f)
    cfg['rng'] = random.Random(f"{cfg['seed']}/{cfg['pid']}")
    cfg['thorough'] = cfg['tier'] == 'thorough'
    return cfg, sys.argv[2]


def run(cases, out, rng, stats=None):
    """Run every case and write the observation; core.drive runs this in two interpreters with different
    environments, which also run the cases in different orders."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    signal.signal(signal.SIGALRM, on_alarm)
    uniq, seen = [], set()
    for name, args in cases:
        k = json.dumps([name, args], sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append((name, args))
    idx = list(range(len(uniq)))
    shuf = idx[:]
    rng.shuffle(shuf)
    order = shuf if HALF else idx
    jobs = [order[i::N_PROCS] for i in range(N_PROCS)]

    def part(n):
        with open(f'{out}.{n}') as f:
            return [json.loads(ln) for ln in f if ln.endswith('\n')]

    def work(n, start, died=None):
        """start: the number of cases done so far, negative if one at a time"""
        global KEEPING
        KEEPING = n % 2 == 1
        with open(f'{out}.{n}', 'a', buffering=1 if start < 0 else -1) as f:
            for k in jobs[n][abs(start) - (start < 0):]:
                f.write(json.dumps([k, run_case(*uniq[k])]) + '\n')

    careful = set()

    def job(n, x):
        if os.getpid() != me:
            return work(n, x)
        # the process died of signal x
        done = [k for k, _ in part(n)]
        if n in careful:
            k = jobs[n][len(done)]
            done.append(k)
            r = '!!died of signal %d' % x
            with open(f'{out}.{n}', 'a') as f:
                f.write(json.dumps([k, ['!', 'died'] if uniq[k][0] in REL else r]) + '\n')
        else:       # some lines may be lost
            careful.add(n)
            with open(f'{out}.{n}', 'w') as f:
                done = []
        return -len(done) - 1

    me = os.getpid()
    for n in range(N_PROCS):
        if os.path.exists(f'{out}.{n}'):
            os.unlink(f'{out}.{n}')
    in_processes(job, [0] * N_PROCS)
    results = {}
    for n in range(len(jobs)):
        results.update(part(n))
        os.unlink(f'{out}.{n}')
    with open(out, 'w') as f:
        for k, r in sorted(results.items()):
            f.write(json.dumps(dict(op=uniq[k][0], a=uniq[k][1], r=r)) + '\n')
    by = {}
    for name, _ in uniq:
        by['calls_' + name] = by.get('calls_' + name, 0) + 1
    by['executions'] = len(uniq)
    by['sure'] = sorted(SURE)
    by.update(stats or {})
    with open(out + '.stats', 'w') as f:
        json.dump(by, f)
