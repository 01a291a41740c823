"""Driver for dsim: workloads, fault plans, reference runs and the oracles for C01-C06."""
import errno as E, json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import gensrc

BENIGN, NEUTRAL, HARD, CRASH = 'benign', 'neutral', 'hard', 'crash'


class Result:
    __slots__ = ('events', 'states', 'outside', 'status', 'crashed_by_us', 'fired', 'hash', 'stderr', 'final', 'runaway', 'nevents', 'allocfail')

    @property
    def code(self):
        k, v = self.status
        return v if k == 'exit' else -v if k == 'signal' else None

    @property
    def returned(self):
        return self.status[0] == 'exit'


class ToolSim:
    def __init__(self, dredd, dsim, simenv, wid):
        self.dredd, self.simenv = dredd, simenv   # dredd: {'dbg': path, 'rel': path}
        self.base = os.path.join(vlib.scratch_base(), 'w%02d' % wid)
        os.makedirs(self.base, exist_ok=True)
        self.root = os.path.join(self.base, 'r')
        self.p = subprocess.Popen([dsim], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 16)
        self.cache = {}
        self.nruns = 0

    def close(self):
        try:
            self.p.stdin.write('quit\n')
            self.p.stdin.flush()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.base, ignore_errors=True)

    def populate(self, files, links=None):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        for n, c in files.items():
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(c.replace('@ROOT@', self.root))
        for n, t in (links or {}).items():
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(t, p)

    def args(self, w, names):
        a = []
        if w.get('info'):
            a.append('--mutation-info-file=' + w['info'].replace('@ROOT@', self.root))
        if w.get('track'):
            a.append('--only-track-mutant-coverage')
        if w.get('noopt'):
            a.append('--no-mutation-opts')
        if w.get('db'):
            a += ['-p', w['db']]
        a += [n.replace('@ROOT@', self.root) for n in names]
        if not w.get('db'):
            a += ['--'] + w.get('flags', [])
        return a

    def run(self, w, names, faults=(), env=None, keep=False, files=None):
        """One simulated execution. w: workload; names: the file list; faults: [(idx, kind, arg)]."""
        self.nruns += 1
        if not keep:
            self.populate(files if files is not None else w['files'], w.get('links'))
        env = dict(env or {})
        before = self.snapshot()
        o = ['job', 'arg ' + self.dredd[w.get('variant', 'dbg')]]
        o += ['arg ' + x for x in self.args(w, names)]
        o += ['cwd ' + os.path.join(self.root, w.get('cwd', '')).rstrip('/'), 'root ' + self.root, 'err ' + os.path.join(self.base, 'err'),
              'entropy %d' % env.get('entropy', 1), 'pid %d' % env.get('pid', 4242), 'timeout 120',
              'env LD_PRELOAD=' + self.simenv, 'env LLVM_DISABLE_SYMBOLIZATION=1', 'env PATH=/usr/bin:/bin', 'env SIM_LAYOUT=%d' % env.get('layout', 1), 'env SIM_CLOCK=%d' % env.get('clock', 1), 'env SIM_ALLOC_FAIL=%d' % env.get('allocfail', 0)]
        o += ['env ' + x for x in env.get('extra', [])]
        watch = sorted(set(x for x in before if x not in w.get('links', ())) | ({w['info']} if w.get('info') and '@' not in w['info'] else set()))
        o += ['watch ' + x for x in watch] + ['nofault sub', 'nofault sub2', 'nofault dl', 'nofault compile_commands.json']
        o += ['fault %d %s %d' % tuple(f) for f in faults]
        o.append('go')
        self.p.stdin.write('\n'.join(o) + '\n')
        self.p.stdin.flush()
        res = Result()
        res.events, res.states, res.outside, res.fired, res.runaway, res.crashed_by_us = [], [], [], [], False, False
        res.allocfail = env.get('allocfail', 0)
        res.status = None
        while True:
            ln = self.p.stdout.readline()
            if not ln:
                raise vlib.CheckError('dsim died')
            ln = ln.rstrip('\n')
            if ln == 'end':
                break
            t = ln.split(' ')
            if t[0] == 'ev':
                res.events.append(ln)
            elif t[0] == 'state':
                res.states.append((int(t[1]), t[2], t[3]))
            elif t[0] == 'outside':
                res.outside.append(ln)
            elif t[0] == 'status':
                res.status = (t[1], int(t[2]))
                res.crashed_by_us = len(t) > 3
            elif t[0] == 'fired':
                res.fired.append((int(t[1]), t[2], int(t[3])))
            elif t[0] == 'runaway':
                res.runaway = True
            elif t[0] == 'hash':
                res.hash = t[1]
                res.nevents = int(t[3])
        with open(os.path.join(self.base, 'err'), errors='replace') as f:
            res.stderr = f.read()
        if 'timeout' in (res.status or ('',))[0]:
            raise vlib.CheckError('simulated run hit the wall-clock limit: ' + repr(names))
        res.final = self.snapshot()
        return res

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, self.root)] = b'-> ' + os.readlink(p).encode()
                    continue
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def norm(self, b):
        return b.replace(self.root.encode(), b'@ROOT@')

    def baseline(self, w, names):
        """Fault-free reference execution over `names`, cached."""
        k = json.dumps([w['id'], w.get('variant'), w.get('track'), w.get('noopt'), names])
        if k not in self.cache:
            if len(self.cache) > 400:
                self.cache.clear()
            if names:
                self.cache[k] = self.run(w, names)
            else:
                self.cache[k] = None
        return self.cache[k]


def canon(w, name):
    """Canonical relative path of a listed name."""
    n = name.replace('@ROOT@', '/X/r')
    base = '/X/r/' + w.get('cwd', '')
    return real(w, os.path.relpath(os.path.normpath(os.path.join(base, n)), '/X/r'))


def real(w, rel):
    """Follows the workload's symbolic links (given relative to the root)."""
    for l, t in w.get('links', {}).items():
        if rel == l:
            return os.path.normpath(os.path.join(os.path.dirname(l), t))
        if rel.startswith(l + '/'):
            return os.path.normpath(os.path.join(os.path.dirname(l), t, rel[len(l) + 1:]))
    return rel


# ---------------------------------------------------------------- workloads

def make_workload(r, wid, dup=False, maxfiles=4, alias=False, allow_bad=True, big=0.1, db=0.15):
    w = {'id': wid, 'files': {}, 'info': None, 'flags': []}
    n = r.choice([1, 2, 2, 3, 3, maxfiles])
    kinds = {}
    names = []
    twins = r.choice([0, 0, 0, 1, 2])
    if r.random() < 0.3:
        w['files']['shared.h'] = 'static inline int shared_helper(int a) { return a + 1; }\nextern int shared_g;\n'
    for i in range(n):
        cxx = r.random() < 0.5
        nm = '%s%d.%s' % (r.choice(['a', 'b', 'z', 'mod']), i, 'cc' if cxx else 'c')
        if twins and r.random() < 0.7:  # equal names in different directories
            nm = 'same.' + ('cc' if twins == 2 else 'c')
            cxx = twins == 2
            free = [x for x in (nm, 'sub/' + nm, 'sub2/' + nm) if x not in kinds]
            nm = r.choice(free) if free else '%d%s' % (i, nm)
        elif r.random() < 0.2:
            nm = 'sub/' + nm
        k = r.random()
        pre = 'm%d' % i
        hs = []
        if 'shared.h' in w['files'] and r.random() < 0.7:
            hs = ['../shared.h' if '/' in nm else 'shared.h']
        if k < 0.62 or not allow_bad and k < 0.8:
            sz = r.randrange(12, 30) if r.random() < big else r.randrange(1, 5)
            w['files'][nm] = gensrc.good(r, cxx, pre, sz, hs)
            kinds[nm] = 'good'
        elif k < 0.72 or not allow_bad:
            w['files'][nm] = gensrc.empty(r, cxx, pre)
            kinds[nm] = 'empty'
        elif k < 0.93:
            w['files'][nm] = gensrc.bad(r, cxx, pre)
            kinds[nm] = 'bad'
        else:
            kinds[nm] = 'missing'
        names.append(nm)
    if not any(k == 'good' for k in kinds.values()):
        cxx = r.random() < 0.5
        nm = 'g9.' + ('cc' if cxx else 'c')
        w['files'][nm] = gensrc.good(r, cxx, 'm9', 2)
        kinds[nm] = 'good'
        names.insert(r.randrange(len(names) + 1), nm)
    r.shuffle(names)
    if r.random() < 0.15:
        links = w['links'] = {}
        nm = r.choice(names)
        if 'missing' != kinds[nm] and '/' not in nm:  # relative includes resolve beside the link
            links['ln_' + nm.replace('/', '_')] = nm
            if r.random() < 0.6:
                names[names.index(nm)] = 'ln_' + nm.replace('/', '_')
        if any(x.startswith('sub/') for x in w['files']):
            links['dl'] = 'sub'
            names = ['dl' + x[3:] if x.startswith('sub/') and kinds[x] != 'missing' and r.random() < 0.5 else x for x in names]
    if dup:
        for _ in range(r.randrange(1, 3)):
            nm = canon(w, r.choice(names))
            sp = nm
            if alias and r.random() < 0.6:
                sp = r.choice(['./' + nm, '@ROOT@/' + nm, '../r/' + nm, 'sub/../' + nm if any(x.startswith('sub/') for x in w['files']) else './' + nm] +
                              [l for l in w.get('links', {}) if real(w, l) == nm] * 2 + ['dl/' + nm[4:]] * (2 if nm.startswith('sub/') and 'dl' in w.get('links', {}) else 0))
            elif not alias:
                sp = [x for x in names if canon(w, x) == nm][0]  # the same spelling again
            names.insert(r.randrange(len(names) + 1), sp)
    w['names'] = names
    w['kinds'] = kinds
    if r.random() < 0.85:
        w['info'] = 'info.json'
        if r.random() < 0.3:
            w['files']['info.json'] = '{"stale": "%s"}\n' % ('x' * r.choice([10, 5000, 200000]))
    w['track'] = r.random() < 0.3
    w['noopt'] = r.random() < 0.3
    if r.random() < 0.2:
        w['files']['notes.txt'] = 'unrelated\n'
    if r.random() < db and 'missing' not in kinds.values():
        ents = [{'directory': '@ROOT@', 'file': '@ROOT@/' + f, 'arguments': ['clang++' if f.endswith('cc') else 'clang', '-c', '@ROOT@/' + f]} for f in kinds]
        if dup and r.random() < 0.7:
            f = r.choice(list(kinds))
            ents.append({'directory': '@ROOT@', 'file': '@ROOT@/' + f, 'arguments': ['clang++' if f.endswith('cc') else 'clang', '-DX=1', '-c', '@ROOT@/' + f]})
        w['files']['compile_commands.json'] = json.dumps(ents)
        w['db'] = '.'
    return w


# ---------------------------------------------------------------- faults

EV = re.compile(r'^ev (\d+) (\S+) (\S+)(?: (?!->)(\S+))?(?: (?!->)(\S+))? -> (.*)$')


def parse_event(e):
    t = e.split(' ')
    i = t.index('->')
    return int(t[1]), t[2], t[3], t[4:i], t[i + 1:]


def fault_menu(w, ev):
    """[(kind, arg, category)] that may be injected at this event, or []."""
    idx, name, path, extra, res = ev
    base = path = real(w, path)
    src = set(w['kinds'])
    is_info = base == w.get('info')
    is_user = base in w['files'] or base in src or is_info
    is_new = not is_user and not base.startswith('lib/') and base not in ('.', 'sub', 'sub2', 'dl')   # temporaries
    if base == 'compile_commands.json' or base in ('.', 'sub', 'sub2', 'dl') or base.startswith('lib/'):
        return []
    if not (is_user or is_new):
        return []
    m = []
    if name in ('open', 'openat', 'creat'):
        fl = [int(x[3:]) for x in extra if x.startswith('fl=')]
        creating = fl and fl[0] & 0o100
        if res[0].startswith('E'):
            return []
        m += [('err', E.EINTR, HARD if creating else BENIGN)]
        if creating:
            m += [('err', x, HARD) for x in (E.ENOSPC, E.EACCES, E.EROFS, E.EMFILE, E.EIO)]
            m += [('sticky', x, HARD) for x in (E.ENOSPC, E.EACCES)]
            if is_new:
                m += [('err', E.EEXIST, BENIGN)]
        else:
            m += [('err', x, HARD) for x in (E.EACCES, E.EMFILE, E.EIO, E.ENOENT, E.ENFILE)]
    elif name in ('read', 'pread64', 'readv', 'preadv'):
        n = int(extra[-1][2:])
        m += [('err', E.EINTR, BENIGN), ('err', E.EIO, HARD), ('sticky', E.EIO, HARD)]
        if n > 1:
            m += [('short', s, BENIGN) for s in (1, n // 2, n - 1) if 0 < s < n]
    elif name in ('write', 'pwrite64', 'writev', 'pwritev'):
        n = int(extra[-1][2:])
        m += [('err', E.EINTR, BENIGN)] * 2 + [('err', x, HARD) for x in (E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG)] + [('sticky', E.ENOSPC, HARD), ('sticky', E.EIO, HARD)]
        m += [('full', s, HARD) for s in (0, 1, n // 2, n - 1, n) if 0 <= s]
        if n > 1:
            m += [('short', s, BENIGN) for s in (1, n // 2, n - 1) if 0 < s < n]
    elif name in ('rename', 'renameat', 'renameat2'):
        m += [('err', x, HARD) for x in (E.EACCES, E.EIO, E.EXDEV, E.ENOSPC, E.EBUSY, E.EPERM)] + [('sticky', E.EXDEV, HARD)]
    elif name == 'close':
        m += [('errafter', E.EIO, HARD), ('errafter', E.ENOSPC, HARD)]
    elif name == 'mmap':
        m += [('err', E.ENOMEM, NEUTRAL), ('err', E.EIO, NEUTRAL)]
    elif name in ('fstat', 'newfstatat', 'stat', 'lstat', 'statx') and not res[0].startswith('E'):
        m += [('err', E.EIO, HARD), ('err', E.EACCES, HARD)]
    elif name in ('fsync', 'fdatasync', 'ftruncate', 'fallocate'):
        m += [('err', E.EIO, HARD), ('err', E.ENOSPC, HARD)]
    return m


def draw_faults(r, w, base, profile):
    """profile: benign, hard, crash, mixed."""
    evs = [parse_event(e) for e in base.events]
    cand = [(e, fault_menu(w, e)) for e in evs]
    cand = [(e, m) for e, m in cand if m]
    out, cats = [], []
    if not cand:
        return out, cats
    # weight towards calls that have in-flight state: writes, renames, creating opens, closes of outputs
    def weight(c):
        e = c[0]
        heavy = e[1] in ('write', 'writev', 'rename', 'pwrite64', 'renameat', 'ftruncate', 'fsync') or any(x.startswith('fl=') and int(x[3:]) & 0o100 for x in e[3]) or (e[1] == 'close' and real(w, e[2]) not in w['files'])
        return 6 if heavy else 1
    k = r.choice([1, 1, 1, 2, 3])
    for _ in range(k):
        e, m = r.choices(cand, [weight(c) for c in cand])[0]
        if profile == 'benign':
            m = [x for x in m if x[2] == BENIGN]
        elif profile == 'hard':
            m = [x for x in m if x[2] in (HARD, NEUTRAL)]
        elif profile == 'crash':
            m = [('kill', 0, CRASH), ('kill', 0, CRASH), ('killafter', 0, CRASH), ('sig', 15, CRASH), ('sig', 2, CRASH)]
        if not m:
            continue
        kind, arg, cat = r.choice(m)
        if any(o[0] == e[0] for o in out):
            continue
        out.append((e[0], kind, arg))
        cats.append(cat)
        if cat == CRASH:
            break
    if profile == 'mixed' and r.random() < 0.35:
        e = r.choice(evs)
        if not any(o[0] == e[0] for o in out):
            out.append((e[0], r.choice(['kill', 'killafter']), 0))
            cats.append(CRASH)
    return out, cats


def cats_of(res):
    """Categories of the faults that actually happened, from the event log."""
    out = []
    full = any(k == 'full' for _, k, _ in res.fired)
    for e in res.events:
        idx, name, path, extra, r = parse_event(e)
        if r[0] in ('KILL', 'SIG'):
            out.append(CRASH)
        elif r[0] == 'SHORT':
            out.append(HARD if full else BENIGN)
        elif 'ERRAFTER' in r:
            out.append(HARD)
        elif r[0] == 'ERR':
            n = int(r[1])
            creating = any(x.startswith('fl=') and int(x[3:]) & 0o100 for x in extra)
            if n == E.EINTR and (name in ('read', 'pread64', 'readv', 'write', 'writev', 'pwrite64') or name in ('open', 'openat') and not creating):
                out.append(BENIGN)
            elif n == E.EEXIST and any(x.startswith('fl=') and int(x[3:]) & 0o200 for x in extra):
                out.append(BENIGN)
            elif name == 'mmap':
                out.append(NEUTRAL)
            else:
                out.append(HARD)
    if res.crashed_by_us:
        out.append(CRASH)
    return out


# ---------------------------------------------------------------- oracles

def expected(sim, w, names, res):
    """Classifies listed files by final content and returns (S, ref): S files left original, ref the fault-free run without S."""
    orig = {k: v.replace('@ROOT@', sim.root).encode() for k, v in w['files'].items()}
    links = {k: b'-> ' + v.encode() for k, v in w.get('links', {}).items() if k in res.final or k not in ('dl',)}
    orig.update(links)
    listed, seen = [], set()
    for n in names:
        c = canon(w, n)
        if c not in seen:
            seen.add(c)
            listed.append(n)
    S = [n for n in listed if canon(w, n) not in orig or res.final.get(canon(w, n)) == orig.get(canon(w, n))]
    return listed, S, orig


def judge(sim, w, names, res, cats, want):
    """Returns a list of (property, message). `want`: the set of property ids to evaluate."""
    v = []
    listed, S, orig = expected(sim, w, names, res)
    if want <= {'C05'}:
        return v
    healthy = [n for n in listed if w['kinds'][canon(w, n)] in ('good', 'empty')]
    full = sim.baseline(w, healthy)
    if full is None:
        fullfinal = orig
    else:
        fullfinal = full.final
    has_mut = [n for n in listed if w['kinds'][canon(w, n)] == 'good' and fullfinal[canon(w, n)] != orig[canon(w, n)]]
    info = w.get('info')
    killed = res.crashed_by_us or res.allocfail
    hard = any(c in (HARD, NEUTRAL, CRASH) for c in cats) or res.allocfail
    done = [n for n in listed if n not in S]
    # the reference run contains the files that were instrumented plus files that never change
    refnames = [n for n in healthy if n in done or n not in has_mut]
    if len(listed) < len(names):
        # A file listed twice may fail the first time and succeed the second: files are then processed in the order in
        # which their texts changed.
        first = {}
        for i, p, st in res.states:
            first.setdefault(p, i)
        dn = sorted((n for n in refnames if n in done), key=lambda n: (first.get(canon(w, n), 1 << 60), listed.index(n)))
        refnames = dn + [n for n in refnames if n not in done]
    ref = sim.baseline(w, refnames)
    reffinal = ref.final if ref is not None else orig
    if full is not None and (not full.returned or full.code != 0) and want & {'C02'}:
        v.append(('C02', 'fault-free run over compilable files %s ended with %s' % (healthy, full.status)))
    if full is not None and (not full.returned) :
        return v
    if 'C01' in want:
        for n in listed:
            c = canon(w, n)
            f = res.final.get(c)
            if c in orig and f not in (orig[c], reffinal.get(c)):
                v.append(('C01', 'source %s ends neither original nor completely instrumented (%s bytes; original %d, instrumented %d)' % (c, len(f) if f is not None else 'no', len(orig[c]), len(reffinal.get(c, b'')))))
        fh = {}
        for n in listed:
            c = canon(w, n)
            if c in orig:
                fh[c] = {h(orig[c]), h(reffinal.get(c, orig[c]))}
        for i, p, st in res.states:
            if p in fh:
                if st not in fh[p]:
                    v.append(('C01', 'at event %d source %s is neither original nor completely instrumented (state %s)' % (i, p, st)))
            elif p != info:
                v.append(('C01', 'at event %d unlisted file %s changed' % (i, p)))
        for l, t in w.get('links', {}).items():
            if l != 'dl' and res.final.get(l) != b'-> ' + t.encode():
                v.append(('C01', 'symbolic link %s was changed' % l))
        if res.outside:
            v.append(('C01', 'wrote outside the requested files: ' + res.outside[0]))
        extra = sorted(set(res.final) - set(orig) - ({info} if info else set()))
        missing = sorted(x for x in orig if x not in res.final)
        if missing:
            v.append(('C01', 'removed files: %s' % missing))
        # cleaning up may itself be hit by a fault: such a leftover is excused
        cleanup = {parse_event(e)[2] for e in res.events if parse_event(e)[1] in ('unlink', 'unlinkat', 'newfstatat', 'lstat', 'stat', 'fstat') and ' ERR' in e}
        extra = [x for x in extra if x not in cleanup]
        if extra and res.returned:
            v.append(('C01', 'run returned but left files behind: %s' % extra))
        if res.runaway:
            v.append(('C01', 'runaway: more than the allowed number of system calls'))
    infostate = None
    if info:
        b = res.final.get(info)
        rb = ref.final.get(info) if ref is not None else None
        infostate = (b, rb)
    info_ok = True
    if info and res.returned:
        if ref is None:
            try:
                info_ok = json.loads(infostate[0].decode()).get('infoForFiles', []) == []
            except Exception:
                info_ok = False
        else:
            info_ok = infostate[0] == infostate[1]
    lost = [n for n in has_mut if n in S]
    bads = [n for n in listed if w['kinds'][canon(w, n)] in ('bad', 'missing')]
    if 'C02' in want and not killed:
        complete = not lost and not bads and info_ok
        if not res.returned:
            v.append(('C02', 'dredd crashed (%s %d) instead of reporting the failure' % res.status))
        elif res.code == 0:
            if lost:
                v.append(('C02', 'exit status 0 but %s was not instrumented' % lost))
            if bads:
                v.append(('C02', 'exit status 0 but %s could not be analysed' % bads))
            if not info_ok:
                v.append(('C02', 'exit status 0 but the mutation info file is missing, incomplete or wrong'))
        else:
            if not bads and not hard:
                v.append(('C02', 'exit status %d although nothing failed (faults: retryable only)' % res.code))
            if not res.stderr.strip():
                v.append(('C02', 'non-zero exit without any message'))
            for n in lost + bads:
                if os.path.basename(n) not in ''.join(l for l in res.stderr.splitlines(True) if 'Processing' not in l):
                    v.append(('C02', 'file %s was not instrumented and no message names it' % n))
            head, sep, tail = res.stderr.partition('The following files were not mutated')
            named = {canon(w, l.strip().replace(sim.root, '@ROOT@')) for l in tail.splitlines()[1:] if l.startswith('  ')}
            for n in done:
                if canon(w, n) in named:
                    v.append(('C02', 'summary says %s was not mutated, but it was' % n))
            for n in bads:
                c = canon(w, n)
                touched = any(real(w, parse_event(e)[2]) == c and (' ERR' in e) for e in res.events)
                if w['kinds'][c] == 'bad' and not touched and c not in named:
                    v.append(('C02', 'file %s has compile-time errors but the summary of files not mutated omits it' % n))
            if info and not info_ok and 'info.json' not in res.stderr:
                v.append(('C02', 'mutation info file not written and no message says so'))
        if not hard and res.returned:
            base = sim.baseline(w, names)
            if {k: sim.norm(x) for k, x in res.final.items()} != {k: sim.norm(x) for k, x in base.final.items()}:
                v.append(('C02', 'retryable interruptions changed the output'))
            if res.code != base.code:
                v.append(('C02', 'retryable interruptions changed the exit status'))
    if 'C03' in want and not killed and res.returned:
        for n in done:
            c = canon(w, n)
            if res.final.get(c) != reffinal.get(c):
                v.append(('C03', 'text of %s differs from a run in which the failing files %s were not listed' % (c, S)))
        if info and not info_ok:
            infofault = any(parse_event(e)[2] == info and (parse_event(e)[4][0] in ('ERR', 'SHORT') or 'ERRAFTER' in e) for e in res.events)
            if not (infofault and res.code != 0):
                v.append(('C03', describe_info(sim, infostate, done, S)))
    if 'C03' in want and not killed and not res.returned:
        v.append(('C03', 'a failing file ended the whole run (%s %d); remaining files were not processed' % res.status))
    return v


def describe_info(sim, st, done, S):
    b, rb = st
    if b is None:
        return 'mutation info file was not written'
    try:
        j = json.loads(b.decode())
    except Exception:
        return 'mutation info file is not a complete JSON document (%d bytes)' % len(b)
    fs = [os.path.basename(x.get('filename', '')) for x in j.get('infoForFiles', [])]
    return 'mutation info file describes %s, instrumented files are %s (left original: %s), or its contents differ from a run without the failing files' % (fs, done, S)


_hc = {}


def h(b):
    if b in _hc:
        return _hc[b]
    if len(_hc) > 2000:
        _hc.clear()
    r = _hc[b] = _h(b)
    return r


def _h(b):
    x = 1469598103934665603
    for c in b:
        x = ((x ^ c) * 1099511628211) & 0xffffffffffffffff
    return '%016x:%d' % (x, len(b))
