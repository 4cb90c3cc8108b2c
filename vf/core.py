"""Orchestration shared by every check: TLC runs, drivers of the real code, verdicts, evidence."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def build_java(dest):
    """Compile the Java evaluators of the given operators into dest (unless up to date)."""
    src = sorted(glob.glob(os.path.join(SPEC, 'java', '*.java')))
    out = [os.path.join(dest, os.path.basename(s)[:-5] + '.class') for s in src]
    try:
        if all(os.path.getmtime(o) >= os.path.getmtime(s) for s, o in zip(src, out)):
            return dest
    except OSError:
        pass
    os.makedirs(dest, exist_ok=True)
    subprocess.run(['javac', '-d', dest, '-cp', TLA] + src, check=True)
    return dest


def verdicts(lines):
    """The failures a judge printed: number of the event or history -> clause."""
    res = {}
    for ln in lines:
        if 'VFAIL' in ln:
            if not ln.startswith('"VFAIL{'):
                raise MachineryError(f'cannot read verdict {ln[:300]}')
            d = json.loads(json.loads(ln)[5:])
            res.setdefault(int(d['n']), d['what'])
    return res


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f'vf_{pid}_')
        self.mc_runs, self.judge_runs, self.samples, self.assumptions = [], [], [], []
        self.violations, self.known = [], []
        self.drive_stats = {}
        try:
            self.classes = build_java(os.path.join(VERIF, 'build'))
        except OSError:
            self.classes = build_java(os.path.join(self.work, 'classes'))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, consts=None, env=None, workers=8, heap='6g', timeout=None, extra=()):
        """Run TLC on spec/<module>.tla with spec/<module>.cfg plus constants; return (counts, printed lines)."""
        n = len(self.mc_runs) + len(self.judge_runs)
        d = tempfile.mkdtemp(prefix=f'{module}_', dir=self.work)
        with open(os.path.join(SPEC, module + '.cfg')) as f:
            cfg = f.read()
        for k, v in (consts or {}).items():
            cfg += f'\nCONSTANT {k} = {v}'
        cfgpath = os.path.join(d, module + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg)
        with open(os.path.join(SPEC, 'BigNat.tla')) as f:       # the definitions themselves, for MC_Self
            pure = f.read().replace('MODULE BigNat', 'MODULE PureBigNat')
        with open(os.path.join(d, 'PureBigNat.tla'), 'w') as f:
            f.write(pure)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss512m', '-XX:-UsePerfData',
               '-cp', f'{self.classes}:{TLA}:{CM}',
               f'-DTLA-Library={SPEC}:{d}', f'-Djava.io.tmpdir={d}', 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-fp', '1', '-config', cfgpath,
               *extra, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {}, VF_SPEC=SPEC, VF_PID=self.pid)
        out = os.path.join(d, 'out')
        with open(out, 'w') as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError(f'TLC {module}: timeout')
        with open(out) as f:
            lines = f.read().split('\n')
        m = None
        for ln in lines:
            m2 = re.match(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', ln)
            m = m2 or m
        if rc != 0 or m is None:
            keep = os.path.join(VERIF, 'replay', f'{self.pid}_{module}_tlc.out')
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy(out, keep)
            raise MachineryError(f'TLC {module}: exit {rc}\n' + '\n'.join(lines[-60:]))
        return dict(module=module, consts=consts or {}, generated=int(m[1]), distinct=int(m[2])), lines

    def mc(self, module, consts=None, **kw):
        """Check a specification exhaustively within its bounds; return the behaviours/cases it prints."""
        r, lines = self.tlc(module, consts, **kw)
        cases = []
        for ln in lines:
            if ln.startswith('"CASE{'):
                cases.append(json.loads(json.loads(ln)[4:]))
        r['cases'] = len(cases)
        self.mc_runs.append(r)
        return cases

    # -- driving the real code ---------------------------------------------
    def drive(self, script, cases=(), name='trace', **params):
        cin = os.path.join(self.work, name + '.in.json')
        out = os.path.join(self.work, name + '.ndjson')
        with open(cin, 'w') as f:
            json.dump(dict(pid=self.pid, tier=self.tier, seed=self.seed, work=self.work,
                           cases=list(cases), params=params), f)
        # Two interpreters: as usual, and with assertions off, another time zone, locale and hash seed
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(self.seed % 4294967295),
                   PYTHONPATH=os.path.join(VERIF, 'drivers'), VF_HALF='0')
        other = dict(env, VF_HALF='1', TZ='XST-13:45', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0',
                     PYTHONHASHSEED=str((self.seed + 1) % 4294967295))
        script = os.path.join(VERIF, 'drivers', script)
        outs = [out + '.half', out + '.other']
        procs = [subprocess.Popen([PY, script, cin, outs[0]], env=env),
                 subprocess.Popen([PY, '-O', script, cin, outs[1]], env=other)]
        rcs = [p.wait() for p in procs]
        if any(rcs):
            raise MachineryError(f'driver {script}: exit {rcs}')
        sure, texts = set(), {}
        for o in outs:
            with open(o + '.stats') as f:
                for k, v in json.load(f).items():
                    if k == 'sure':
                        sure |= set(v)
                    elif k.startswith('calls_'):
                        self.drive_stats[k] = max(self.drive_stats.get(k, 0), v)
                    else:
                        self.drive_stats[k] = self.drive_stats.get(k, 0) + v
        with open(out, 'w') as f:
            for o in outs:
                with open(o) as g:
                    for ln in g:
                        e = json.loads(ln)
                        if 'op' not in e:
                            f.write(ln)
                            continue
                        rs = texts.setdefault(json.dumps([e['op'], e['a']], sort_keys=True), [])
                        if e['r'] not in rs:
                            rs.append(e['r'])
                os.unlink(o)
            for key, rs in texts.items():
                op, a = json.loads(key)
                if len(rs) > 1 and op in sure:
                    rs = [['!', 'differs between processes']]
                for r in rs:
                    f.write(json.dumps(dict(op=op, a=a, r=r)) + '\n')
        return out

    # -- judging -------------------------------------------------------------
    def judge(self, module, trace, consts=None, **kw):
        n = 0
        with open(trace) as f:
            for n, ln in enumerate(f, 1):
                pass
        if n == 0:
            raise MachineryError(f'{module}: empty trace')
        r, lines = self.tlc(module, consts, env={'VF_TRACE': trace}, **kw)
        fails = {}
        fails.update(verdicts(lines))
        r['events'] = n
        if r['distinct'] < n:
            raise MachineryError(f"{module}: {r['distinct']} states for {n} events")
        self.judge_runs.append(r)
        known = load_known(self.pid)
        with open(trace) as f:
            for k, ln in enumerate(f, 1):
                if k % max(1, n // 3) == 1 and len(self.samples) < 6:
                    self.samples.append(ln[:600].strip())
                if k in fails:
                    e = json.loads(ln)
                    hit = next((kf for kf in known if kf['match'](e)), None)
                    if hit:
                        self.known.append((hit['text'], ln.strip()))
                    else:
                        self.violations.append((module, fails[k], ln.strip()))
        return fails

    def judge_histories(self, module, trace, consts=None, **kw):
        """As judge, for traces whose lines are whole histories."""
        lens = []
        with open(trace) as f:
            for ln in f:
                lens.append(len(json.loads(ln)['ev']))
        if not lens:
            raise MachineryError(f'{module}: empty trace')
        r, lines = self.tlc(module, consts, env={'VF_TRACE': trace}, **kw)
        done, fails = set(), {}
        for ln in lines:
            m = re.match(r'<<"HDONE", (\d+)>>$', ln)
            if m:
                done.add(int(m[1]))
        fails.update(verdicts(lines))
        r['histories'], r['events'] = len(lens), len(lens)
        r['steps'] = sum(lens)
        if done | set(fails) != {n for n in range(1, len(lens) + 1) if lens[n - 1]}:
            raise MachineryError(f'{module}: {len(done)} + {len(fails)} of {len(lens)} histories judged')
        self.judge_runs.append(r)
        with open(trace) as f:
            for k, ln in enumerate(f, 1):
                if k in (1, len(lens) // 2) and len(self.samples) < 4:
                    h = json.loads(ln)
                    self.samples.append(dict(cfg=h['cfg'], headers=len(h['hdrs']), events=h['ev'][:12]))
                if k in fails:
                    self.violations.append((module, fails[k], ln.strip()))
        return fails

    def violation(self, what, detail):
        self.violations.append(('direct', what, json.dumps(detail)))

    # -- the end ---------------------------------------------------------------
    def finish(self):
        mcs, js = self.mc_runs, self.judge_runs
        cov = dict(
            states=sum(r['distinct'] for r in mcs + js),
            transitions=sum(r['generated'] for r in mcs + js),
            traces_validated_against_impl=sum(r['events'] for r in js),
            samples=self.samples or ['none'],
            model_checking_runs=mcs, trace_validation_runs=js, driver=self.drive_stats)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for text in sorted({t for t, _ in self.known}):
            print(f'KNOWN-FINDING: property={self.pid} {text}')
        rc = 0
        if self.violations:
            rdir = os.path.join(VERIF, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.pid}_{self.tier}_{self.seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               failures=[dict(judge=m, clause=c, event=e) for m, c, e in self.violations[:200]]),
                          f, indent=1)
            for m, c, e in self.violations[:5]:
                print(f'  {m}: {c}')
                n = re.match(r'event (\d+) ', c)
                if n:
                    h = json.loads(e)
                    print(f'    cfg {h["cfg"]}\n    last events {h["ev"][max(0, int(n[1]) - 4):int(n[1])]}'[:900])
                else:
                    print(f'    {e[:700]}')
            print(f'  {len(self.violations)} violation(s)')
            print(f'VIOLATION property={self.pid} replay={path}')
            rc = 1
        else:
            print(f'{self.pid} held: {cov["states"]} states, {cov["traces_validated_against_impl"]} traces, '
                  f'{ev["wall_s"]} s')
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def load_known(pid):
    """Known findings: lines `KNOWN property=<id> op=<op> match=<regex on the event line> <text>`."""
    res = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for ln in f:
                m = re.match(r'KNOWN property=(\S+) op=(\S+) match=(\S+) (.*)', ln)
                if m and m[1] == pid:
                    rx, op = re.compile(m[3]), m[2]
                    res.append(dict(text=m[4].strip(), match=lambda e, rx=rx, op=op: e.get('op') == op
                                    and rx.fullmatch(json.dumps(e.get('a')) + '=>' + str(e.get('r'))) is not None))
    except OSError:
        pass
    return res
