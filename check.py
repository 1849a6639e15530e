#!/usr/bin/env python3
"""Runs one check: check.py P01 [quick|thorough], or check.py replay FILE.

Builds the harness against /repo's current working tree, runs the worker
processes, judges what they observed, writes evidence/<id>.json.
Exit 0: held on everything explored. 1: VIOLATION line(s). 3: the check itself failed.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS  # noqa: E402

NPROC = 8
HARN = os.path.join(HERE, 'harness')


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def sources():
    src = sorted(glob.glob(REPO + '/src/**/*.c', recursive=True))
    return [s for s in src if os.path.basename(s) != 'Debugger.c']


def include_dirs():
    d = set()
    for root in ('/include', '/src'):
        for h in glob.glob(REPO + root + '/**/*.h', recursive=True):
            d.add(os.path.dirname(h))
    return sorted(d)


def build(check_dir, name):
    """compile /repo's sources and the worker in the given configuration"""
    cfg = CONFIGS[name]
    out = os.path.join(check_dir, 'build-' + name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    inc = ['-I' + d for d in include_dirs()]
    defs = ['-D_POSIX_C_SOURCE=200809L', '-DPSLP_VERSION="verif"', '-DNDEBUG']
    jobs = []
    objs = []
    for i, s in enumerate(sources()):
        o = '%s/l%d.o' % (out, i)
        objs.append(o)
        jobs.append([cfg['cc'], '-std=c99', '-w', '-g'] + cfg['cflags'] + (['-DPSLP_VERIF_HOOKS'] if cfg.get('hooks') else []) + defs + inc + ['-c', s, '-o', o])
    for i, s in enumerate(['cov.c'] + cfg.get('extra_c', [])):
        o = '%s/h%d.o' % (out, i)
        objs.append(o)
        jobs.append([cfg['cc'], '-std=gnu99', '-w', '-O1', '-g'] + cfg.get('hcflags', []) + defs + inc + ['-I' + HARN, '-c', HARN + '/' + s, '-o', o])
    main = cfg.get('main', 'worker.cpp')
    extra = ['-DWITH_EXTRA="%s"' % cfg['extra']] if cfg.get('extra') else []
    o = out + '/main.o'
    objs.append(o)
    if main.endswith('.cpp'):
        jobs.append([cfg['cxx'], '-std=c++17', '-w'] + cfg['hflags'] + extra + ['-I' + HARN, '-I' + REPO + '/include/PSLP', '-c', HARN + '/' + main, '-o', o])
    else:
        jobs.append([cfg['cc'], '-std=gnu99', '-w', '-g'] + cfg['hflags'] + ['-I' + HARN, '-I' + REPO + '/include/PSLP', '-c', HARN + '/' + main, '-o', o])
    jobs.reverse()  # the harness takes longest

    def one(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode and HARN + '/nnz.c' in cmd:  # optional: only the attribution of nonzeros depends on it
            return one([c for c in cmd if c not in inc and c != HARN + '/nnz.c'] + ['-DWITHOUT_INTERNALS', HARN + '/nnz.c'])
        return (cmd, p.returncode, p.stdout)
    with ThreadPoolExecutor(NPROC) as ex:
        for cmd, rc, text in ex.map(one, jobs):
            if rc:
                raise Broken('compilation failed: %s\n%s' % (' '.join(cmd), text[-3000:]))
    exe = out + '/worker'
    cmd = [cfg['cxx']] + objs + cfg['ldflags'] + ['-lpthread', '-lm', '-o', exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('link failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return exe


# ------------------------------------------------------------------ running
class Result:
    def __init__(self):
        self.counters, self.maxima, self.samples, self.viol, self.edges = {}, {}, [], [], {}
        self.hashes, self.cases, self.notes = set(), 0, []

    def add_text(self, data, config):
        try:
            return self.add_lines(data, config)
        except (ValueError, IndexError) as e:  # output of a worker whose memory was corrupted
            self.notes.append('unreadable worker output: %s' % e)
            return None

    def add_lines(self, data, config):
        lines = data.split(b'\n')
        i = 0
        done = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            if ln.startswith(b'C '):
                _, n, k = ln.decode(errors='replace').split(' ', 2)
                self.counters[k] = self.counters.get(k, 0) + int(n)
            elif ln.startswith(b'M '):
                _, v, k = ln.decode(errors='replace').split(' ', 2)
                self.maxima[k] = max(self.maxima.get(k, float('-inf')), float(v))
            elif ln.startswith(b'S '):
                n = int(ln.split()[1])
                rest = b'\n'.join(lines[i:])
                s = rest[:n]
                if len(self.samples) < 24:
                    self.samples.append(s.decode(errors='replace'))
                i += s.count(b'\n')
                i += 1
            elif ln.startswith(b'V '):
                head, _, det = ln.decode(errors='replace').partition('\t')
                _, key, case, path = head.split(' ', 3)
                self.viol.append(dict(key=key, case=int(case), path=path, detail=det, config=config))
            elif ln.startswith(b'E '):
                bits = ln[2:]
                old = self.edges.get(config)
                if old is None:
                    self.edges[config] = bytearray(bits)
                else:
                    for q, b in enumerate(bits[:len(old)]):
                        if b == 49:
                            old[q] = 49
            elif ln.startswith(b'D '):
                done = int(ln.split()[1])
        return done


def read_prog(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(24)
        return tuple(int.from_bytes(b[i:i + 8], 'little') for i in (0, 8, 16))
    except OSError:
        return (0, 0, 0)


def san_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=7'
    e['MSAN_OPTIONS'] = 'exitcode=77'
    e['LSAN_OPTIONS'] = 'exitcode=77'
    return e


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(HERE, 'build', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.rep = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(self.rep, exist_ok=True)
        for f in glob.glob('%s/%s-*' % (self.rep, pid)):  # replay files of earlier runs
            os.remove(f)
        self.exes = {}
        self.R = Result()
        self.n_crash = 0

    def exe(self, config):
        if config not in self.exes:
            t = time.time()
            self.exes[config] = build(self.dir, config)
            log('%s: built %s in %.1f s' % (self.pid, config, time.time() - t))
        return self.exes[config]

    def cmd(self, st, first, count, stride, tag, extra=()):
        exe = self.exe(st['config'])
        c = [exe, '--mode', st['mode'], '--prop', self.pid, '--out', self.rep, '--seed', str(self.seed), '--first', str(first),
             '--count', str(count), '--stride', str(stride), '--tier', self.tier, '--prog', '%s/prog.%s' % (self.dir, tag),
             '--hashes', '%s/hash.%s' % (self.dir, tag)]
        return c + list(extra) + st.get('args', [])

    def stage(self, st):
        """NPROC workers over st['count'] cases; a worker that dies or hangs is a finding about its case"""
        total = st['count'][self.tier]
        stride = st.get('procs', NPROC)
        hang = st.get('hang', 90)
        deadline = st.get('deadline', {'quick': 240, 'thorough': 700})[self.tier]
        exe = self.exe(st['config'])
        t0 = time.time()
        procs = []
        name = st['config'] + '-' + st['mode']

        def start(w, first, count, gen):
            tag = '%s.%d.%d' % (name, w, gen)
            extra = ['--deadline', str(max(5, int(deadline - (time.time() - t0))))]
            if st.get('digest'):
                extra += ['--digest', '%s/digest.%s' % (self.dir, tag)]
            c = self.cmd(st, first, count, stride, tag, extra)
            out = open('%s/out.%s' % (self.dir, tag), 'wb')
            err = open('%s/err.%s' % (self.dir, tag), 'wb')
            p = subprocess.Popen(c, stdout=out, stderr=err, env=san_env(), cwd=self.dir)
            return dict(p=p, tag=tag, w=w, first=first, count=count, gen=gen, last=(None, time.time()), cmd=c)
        for w in range(stride):
            n = (total - w + stride - 1) // stride
            if n > 0:
                procs.append(start(w, w, n, 0))
        self.live = procs
        while procs:
            time.sleep(0.05)
            for q in list(procs):
                rc = q['p'].poll()
                prog = read_prog('%s/prog.%s' % (self.dir, q['tag']))
                if rc is None:
                    if prog != q['last'][0]:
                        q['last'] = (prog, time.time())
                        continue
                    elif time.time() - q['last'][1] > hang:
                        q['p'].kill()
                        q['p'].wait()
                        rc = 'hang'
                    else:
                        continue
                procs.remove(q)
                data = open('%s/out.%s' % (self.dir, q['tag']), 'rb').read()
                done = self.R.add_text(data, st['config'])
                hp = '%s/hash.%s' % (self.dir, q['tag'])
                if os.path.exists(hp):
                    b = open(hp, 'rb').read()
                    self.R.hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
                if rc == 0 and done is not None:
                    self.R.cases += done
                    continue
                err = open('%s/err.%s' % (self.dir, q['tag']), 'rb').read().decode(errors='replace')
                if rc == 3:
                    raise Broken('worker refused: ' + err[-2000:])
                k, ndone, finished = prog
                self.R.cases += ndone
                if rc == -9 and rc != 'hang':
                    self.R.notes.append('worker %s was killed (out of memory?) at case %d' % (q['tag'], k))
                    if q['gen'] < 2:
                        procs.append(start(q['w'], k + stride, q['count'] - ndone, q['gen'] + 1))
                    continue
                self.abnormal(st, q, rc, k, finished, err)
                self.n_crash += 1
                if self.n_crash < 4 and not finished and q['count'] > ndone and time.time() - t0 < deadline:
                    procs.append(start(q['w'], k + stride, q['count'] - ndone, q['gen'] + 1))
        log('%s: %s, %d cases, %.1f s' % (self.pid, name, self.R.cases, time.time() - t0))

    def digest_files(self, name):
        return sorted(glob.glob('%s/digest.%s.*' % (self.dir, name)))

    def violation(self, st, k, key, det):
        """a finding about case k made by the driver itself"""
        path = '%s/%s-%d-%d-%s.case' % (self.rep, self.pid, self.seed, k, key)
        with open(path, 'wb') as f:
            f.write(('property %s\nmode %s\nconfig %s\nkey %s\nseed %d\ncase %d\ndetail %s\n' % (self.pid, st['mode'], st['config'], key, self.seed, k, det)).encode())
            f.write(self.dump_case(st, k))
        self.R.viol.append(dict(key=key, case=k, path=path, detail=det, config=st['config']))

    def dump_case(self, st, k):
        try:
            return subprocess.run(self.cmd(st, k, 1, 1, 'dump', ['--dump', '1']), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=san_env(), timeout=60).stdout
        except Exception:
            return b''

    def abnormal(self, st, q, rc, k, finished, err):
        what = 'hang' if rc == 'hang' else 'crash'
        if finished:
            k_txt = 'at exit'
        else:
            k_txt = 'case %d' % k
        if what == 'hang':  # once more, alone, with a generous limit
            c = self.cmd(st, k, 1, 1, 'rerun')
            try:
                p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(), cwd=self.dir, timeout=st.get('hang2', 150))
                if p.returncode == 0:
                    self.R.notes.append('case %d stalled once and passed when run alone' % k)
                    return
                err = p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired:
                pass
        kind = what
        m = re.search(r'ERROR: (\w+Sanitizer): ([\w-]+)|WARNING: (\w+Sanitizer): ([\w -]+)|runtime error: ([^\n]*)', err)
        if m and 'attempting double-free' in err: kind = 'double-free'
        elif m:
            kind = re.sub(r'[^A-Za-z0-9]+', '-', next(g for g in (m.group(2), m.group(4), m.group(5)) if g))[:50].strip('-')
        path = '%s/%s-%d-%d-%s.case' % (self.rep, self.pid, self.seed, k, kind)
        dump = self.dump_case(st, k)
        det = 'worker ended with %s, %s' % (rc, k_txt)
        with open(path, 'wb') as f:
            f.write(('property %s\nmode %s\nconfig %s\nkey %s\nseed %d\ncase %d\ndetail %s\n' % (self.pid, st['mode'], st['config'], kind, self.seed, k, det)).encode())
            f.write(dump)
            f.write(b'\n--- stderr ---\n' + err[-6000:].encode())
        self.R.viol.append(dict(key=kind, case=k, path=path, detail=det + ': ' + ' '.join(err[-400:].split()), config=st['config']))


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) input=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), input=m.group(3), what=m.group(4)))
    return out


def input_id(path):
    """identity of the failing input: hash of the LP text in the replay file"""
    try:
        t = open(path, errors='replace').read()
    except OSError:
        return '?'
    m = re.search(r'^LP .*?(?=^ston_cols=)', t, re.S | re.M)
    return hashlib.sha256((m.group(0) if m else t).encode()).hexdigest()[:16]


def finish(run, spec, t0):
    R = run.R
    known = known_findings(run.pid)
    new = []
    for v in R.viol:
        v['input'] = input_id(v['path'])
        k = [f for f in known if f['key'] == v['key'] and f['input'] == v['input']]
        if k:
            v['known'] = k[0]
        else:
            new.append(v)
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (run.pid, f['what']))
    for v in new[:20]:
        if not v['path'].startswith('/'):
            v['path'] = os.path.join(run.dir, v['path'])
        with open(v['path'], 'a') as f:
            if 'config ' not in open(v['path'], errors='replace').read(2000):
                f.write('config %s\n' % v['config'])
        log('  %s: %s (case %d) %s' % (run.pid, v['key'], v['case'], v['detail'][:300]))
        print('VIOLATION property=%s replay=%s' % (run.pid, v['path']))
    smp = sorted(R.samples, key=len)
    smp = [s for s in smp if len(s) > 200][:3] or smp[:3]
    cov = dict(evaluations=R.cases, distinct_nontrivial=len(R.hashes), rule=spec['rule'], samples=[s[:6000] for s in smp],
               observed={k: v for k, v in sorted(R.counters.items())}, maxima=R.maxima)
    if R.edges:
        cov['library_edges_reached'] = {k: dict(reached=int(e.count(b'1')), total=len(e)) for k, e in R.edges.items()}
    cov.update(getattr(run, 'extra_cov', {}))
    if R.notes:
        cov['notes'] = R.notes
    ev = dict(property=run.pid, tier=run.tier, seed=run.seed, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(new))
    with open('%s/evidence/%s.json' % (HERE, run.pid), 'w') as f:
        json.dump(ev, f, indent=1)
    need = spec.get('need', {})
    if not new:
        for k, n in need.items():  # a run that observed too little decides nothing
            got = R.cases if k == 'cases' else R.counters.get(k, 0)
            if got < n:
                raise Broken('only %d of "%s" observed, at least %d needed' % (got, k, n))
    return 1 if new else 0


def clean(run):
    shutil.rmtree(run.dir, ignore_errors=True)


def replay(path):
    t = open(path, errors='replace').read()
    g = lambda k, d='': (re.search(r'^%s (.*)$' % k, t, re.M) or [0, d])[1]
    pid, mode, config = g('property'), g('mode'), g('config', 'cov')
    run = Runner(pid + '-replay', 'quick', int(g('seed', '1')))
    exe = run.exe(config)
    p = subprocess.run([exe, '--mode', mode, '--prop', pid, '--out', run.dir, '--replay', path], env=san_env())
    clean(run)
    return p.returncode


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':  # nothing to prepare: every check builds what it needs
        for tool in ('clang', 'clang++', 'gcc', 'g++'):
            if not shutil.which(tool):
                log('missing ' + tool)
                return 1
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    spec = CHECKS[pid]
    run = Runner(pid, tier, seed)
    try:
        for st in spec['stages']:
            if callable(st):
                st(run)
            elif tier in st['count']:
                run.stage(st)
        rc = finish(run, spec, t0)
    except Exception as e:
        for q in getattr(run, 'live', []):
            q['p'].kill()
        log('check %s failed: %s' % (pid, e if isinstance(e, Broken) else traceback.format_exc()))
        if run.R.viol:
            return finish(run, spec, t0)
        return 3
    if rc == 0:
        clean(run)
    log('%s %s: exit %d, %d cases, %.1f s' % (pid, tier, rc, run.R.cases, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
