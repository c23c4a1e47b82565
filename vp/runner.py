"""Builds the analyser and the intermediate code, runs analyses, writes evidence and verdicts."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
HEADERS = os.path.join(REPO, 'include', 'floaxie')


class Broken(Exception):
    """The analysis can't give an answer."""


def sh(cmd, timeout=900, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine'), 'BUILD=' + BUILD])
    if r.returncode:
        raise Broken('the analyser does not build: ' + r.stderr[-2000:])
    return os.path.join(BUILD, 'engine')


def headers():
    return sorted(f for f in os.listdir(HEADERS) if f.endswith('.h'))


def check_repo():
    if not os.path.isdir(HEADERS) or len(headers()) < 5:
        raise Broken('no library headers in ' + HEADERS)


class Work:
    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(BUILD, 'ir-%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.bcs = {}
        self.engine = None
        self.cmds = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def bc(self, src, std='c++14', extra=()):
        key = (src, std, tuple(extra))
        if key in self.bcs:
            return self.bcs[key]
        out = os.path.join(self.dir, hashlib.md5(repr(key).encode()).hexdigest()[:10] + '.bc')
        path = src if os.path.isabs(src) else os.path.join(VERIF, 'harness', src)
        cmd = [LLVM + '/clang++', '-std=' + std, '-O1', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
               '-g', '-include', os.path.join(VERIF, 'harness', 'vp_pre.h'), '-I' + os.path.join(REPO, 'include'), *extra, '-emit-llvm', '-c', path, '-o', out + '.0']
        r = sh(cmd)
        if r.returncode:
            raise Broken('the entry points do not compile: ' + r.stderr[-3000:])
        r = sh([LLVM + '/opt', '-passes=function(sroa,mem2reg)', out + '.0', '-o', out])
        if r.returncode:
            raise Broken('opt: ' + r.stderr[-2000:])
        self.bcs[key] = out
        return out

    def analyse(self, mode, src, opts, limit=840):
        if not self.engine:
            self.engine = build_engine()
        bc = self.bc(src)
        out = os.path.join(self.dir, 'out.json')
        if os.path.exists(out):
            os.unlink(out)
        cmd = [self.engine, mode, bc] + ['%s=%s' % kv for kv in opts.items()] + ['limit=%d' % limit, 'out=' + out]
        r = sh(cmd, timeout=limit + 120)
        self.cmds.append('build/engine %s %s %s' % (mode, src, ' '.join('%s=%s' % kv for kv in opts.items())))
        if r.returncode or not os.path.exists(out):
            raise Broken('the analyser failed: ' + r.stderr[-2000:])
        return json.load(open(out))

    def analyse_all(self, runs, limit, stop):
        """Runs of one process each, as many at a time as there are processors; stop(result) ends the whole."""
        import concurrent.futures, threading
        if not self.engine:
            self.engine = build_engine()
        for _, src, _ in runs:
            self.bc(src)
        procs, lock, over = [], threading.Lock(), [False]
        t0 = time.time()

        def one(k):
            mode, src, opts = runs[k]
            out = os.path.join(self.dir, 'out%d.json' % k)
            left = int(limit - (time.time() - t0))
            if over[0] or left < 5:
                return k, None, 'no time left'
            cmd = [self.engine, mode, self.bc(src)] + ['%s=%s' % kv for kv in opts.items()] + ['limit=%d' % left, 'out=' + out]
            with lock:
                if over[0]:
                    return k, None, ''
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
                procs.append(p)
            try:
                err = p.communicate(timeout=left + 60)[1]
            except subprocess.TimeoutExpired:
                kill(p)
                return k, None, 'the analyser does not end'
            if p.returncode or not os.path.exists(out):
                return k, None, 'the analyser failed: ' + err[-2000:]
            return k, json.load(open(out)), ''

        def kill(p):
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        res = [None] * len(runs)
        with concurrent.futures.ThreadPoolExecutor(max(1, len(os.sched_getaffinity(0)))) as ex:
            for f in concurrent.futures.as_completed([ex.submit(one, k) for k in range(len(runs))]):
                k, d, err = f.result()
                if d is None and over[0]:
                    continue
                res[k] = d if d is not None else {'incomplete': err, 'violations': [], 'obligations': {}, 'counts': {}, 'functions': [], 'lines': []}
                if d is not None and stop(d):
                    with lock:
                        over[0] = True
                        for p in procs:
                            if p.poll() is None:
                                kill(p)
        for k, (mode, src, opts) in enumerate(runs):
            if res[k] is not None:
                self.cmds.append('build/engine %s %s %s' % (mode, src, ' '.join('%s=%s' % kv for kv in opts.items())))
        return res

    def scan(self, src, std='c++14'):
        if not self.engine:
            self.engine = build_engine()
        bc = self.bc(src, std)
        r = sh([self.engine, 'scan', bc])
        self.cmds.append('build/engine scan %s -std=%s' % (src, std))
        if r.returncode:
            raise Broken('the scanner failed: ' + r.stderr[-2000:])
        return json.loads(r.stdout)


class Result:
    def __init__(self):
        self.violations = []      # dicts with kind, where, msg, ...
        self.obligations = {}     # rule -> [checked, discharged]
        self.coverage = {}
        self.notes = []
        self.incomplete = []

    def add(self, rule, n, ok):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += ok


def known_findings(prop):
    """Lines `known: property=<id> key=<text> ...` : what fails is recognised by the key."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith('known: property=%s ' % prop):
                key = ln.split(' key="', 1)[1].split('"', 1)[0]
                out.append((key, ln.strip()))
    return out


def finish(prop, work, res, level, assumptions, trusted, t0, explanation):
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(prop)
    fresh, hit = [], []
    for v in res.violations:
        text = '%s: %s: %s' % (v.get('where'), v.get('kind'), v.get('msg'))
        k = [x for x in known if x[0] in text]
        (hit if k else fresh).append((v, k))
    for key, ln in known:
        if any(k and k[0][0] == key for _, k in hit):
            print('KNOWN-FINDING: property=%s %s' % (prop, key))
    total = sum(o[0] for o in res.obligations.values())
    done = sum(o[1] for o in res.obligations.values())
    cov = {'obligations': total, 'discharged': done, 'by_rule': {k: {'checked': v[0], 'discharged': v[1]} for k, v in sorted(res.obligations.items())},
           'checker_cmd': work.cmds[0] if work.cmds else sys.argv[0], 'commands': work.cmds, 'trusted_base': trusted, 'explanation': explanation}
    cov.update(res.coverage)
    if res.notes:
        cov['notes'] = res.notes[:40]
    if res.incomplete:
        cov['incomplete'] = res.incomplete
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    if fresh:
        path = os.path.join(EVID, 'replay-%s.json' % prop)
        json.dump({'property': prop, 'commands': work.cmds, 'violations': [v for v, _ in fresh]}, open(path, 'w'), indent=1)
        for v, _ in fresh[:12]:
            print('%s: [%s] %s  (in %s)' % (v.get('where'), v.get('kind'), v.get('msg'), v.get('function', '-')))
            if v.get('trail'):
                print('    on: ' + v['trail'][:400])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if res.incomplete:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, '; '.join(res.incomplete)[:1500]))
        return 3
    print('OK property=%s: %d obligations, %d discharged, %.1f s' % (prop, total, done, time.time() - t0))
    return 0
