"""Checks of the run-time properties (C07-C12 and the run-time half of C04): generated programs, instrumented by the dredd built
from /repo, executed in the run-time simulator under seeded schedules and faults."""
import collections, json, os, random, re, shutil, signal, subprocess, sys, time, traceback
from multiprocessing import Pool
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
sys.path.insert(0, HERE)
import vlib
from vlib import CheckError
import rt, gen_prog, refbuild

# programs per tier, wall-clock cap of the search in seconds
BUDGET = {'C07': {'quick': (88, 300), 'thorough': (1600, 3000)},
          'C08': {'quick': (80, 300), 'thorough': (1600, 3000)},
          'C09': {'quick': (72, 300), 'thorough': (1400, 3000)},
          'C10': {'quick': (72, 300), 'thorough': (1400, 3000)},
          'C11': {'quick': (64, 300), 'thorough': (1200, 3000)},
          'C12': {'quick': (64, 300), 'thorough': (1200, 3000)},
          'C04': {'quick': (32, 200), 'thorough': (600, 2000)}}
OPCAP = 400
CFG = {}
SIM = None
RECYCLE = 4000


def get_sim():
    global SIM
    if SIM is None or SIM.runs > RECYCLE:
        if SIM is not None:
            SIM.close()
        SIM = rt.Sim()
    return SIM


class Skip(Exception):
    pass


class Violation(Exception):
    pass


# ------------------------------------------------------------------ programs
class Prog:
    """One generated program and its builds."""

    def __init__(self, spec, opts=(), pch=True):
        self.spec, self.opts, self.pch = spec, list(opts), pch
        self.dir = os.path.join(vlib.scratch_base(), 'prog')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.sos, self.cache = {}, {}
        self.info = {}
        self.raw = {}
        self.groups = None

    def names(self):
        return self.spec['mutate'] + ['pmain.cc']

    def instrument(self, variant):
        """Runs dredd in mode mut or track; returns its directory."""
        if variant in self.info:
            return
        d = os.path.join(self.dir, variant)
        rt.write_files(d, self.spec['files'])
        o = self.opts + (['--only-track-mutant-coverage'] if variant == 'track' else [])
        self.info[variant], self.raw[variant] = rt.run_dredd(CFG['dredd'], d, self.spec['mutate'], o)

    def so(self, variant):
        if variant in self.sos:
            return self.sos[variant]
        d = os.path.join(self.dir, variant)
        if variant == 'orig':
            rt.write_files(d, self.spec['files'])
            try:
                self.sos[variant] = rt.compile_so(d, self.names())
            except rt.BuildFail as e:
                STATS['skips']['generated program does not compile'] += 1
                raise Skip('generated program does not compile: %s' % e)
        elif variant in ('mut', 'track'):
            try:
                self.instrument(variant)
                self.sos[variant] = self.compile(d, self.names(), self.pch)
            except rt.BuildFail as e:
                raise Violation('instrumented program does not build (%s): %s' % (variant, e))
        else:
            self.reference()
            rt.write_files(d, {**self.spec['files'], **self.ref})
            extra = ['-fsanitize=undefined', '-fno-sanitize=signed-integer-overflow', '-fsanitize-trap=all'] if variant == 'refub' else []
            try:
                self.sos[variant] = rt.compile_so(d, self.names(), use_pch=not extra, extra=extra)
            except rt.BuildFail as e:
                raise Skip('reference does not compile: %s' % e)
        return self.sos[variant]

    def compile(self, d, names, pch):
        return rt.compile_so(d, names, use_pch=pch)

    def reference(self):
        if self.groups is None:
            try:
                self.instrument('mut')
            except rt.BuildFail as e:
                raise Violation('instrumented program does not build (mut): %s' % e)
            try:
                self.ref, self.groups = refbuild.build_reference(self.spec['files'], self.spec['mutate'], self.spec['langs'], self.info['mut'])
            except refbuild.Unsupported as e:
                raise Skip('reference: %s' % e)
            self.bygid = {g.gid: g for g in self.groups}
            self.byid = {i: g for g in self.groups for i, a in g.inst}

    def outer(self):
        """gid -> gid of the outermost mutated expression around it (itself when none is)."""
        if not hasattr(self, 'outer_'):
            self.outer_ = {}
            for g in self.groups:
                o = g
                for h in self.groups:
                    if h.file == g.file and h.kind != 'removeStmt' and h.start <= g.start and h.end >= g.end and (h.end - h.start, -refbuild.rank(h)) > (o.end - o.start, -refbuild.rank(o)):
                        o = h
                self.outer_[g.gid] = g.gid if g.kind == 'removeStmt' else o.gid
        return self.outer_

    def ids(self):
        """All ids in the mutation info file."""
        out = set()
        for f in self.info['mut' if 'mut' in self.info else 'track'].get('infoForFiles', []):
            for n in f.get('mutationTree', []):
                for g in n.get('mutationGroups', []):
                    (k, v), = g.items()
                    if k == 'removeStmt':
                        out.add(v.get('mutationId', 0))
                    else:
                        out |= {i.get('mutationId', 0) for i in v.get('instances', [])}
        return out

    def base(self, q):
        return {'threads': self.spec['threads'], 'macro': q['macro'], 'envfault': q['envfault'], 'opcap': OPCAP, 'seqmacro': q.get('seqmacro', 0)}

    def plain(self, variant, q, ref=(), nproc=1):
        """An execution of the original or reference program (micro schedule off); cached."""
        key = (variant, q['macro'], q['envfault'], q.get('seqmacro', 0), tuple(ref), nproc)
        if key not in self.cache:
            r = self.run({**self.base(q), 'so': [self.so(variant)] * nproc, 'p0': 0, 'p1': 0, 'stepcap': 400000, 'ref': list(ref)})
            self.cache[key] = r
            if len(self.cache) > 200:
                self.cache.pop(next(iter(self.cache)))
        return self.cache[key]

    def micro(self, variant, q, limit, nproc=1, **kw):
        j = {**self.base(q), 'so': [self.so(variant)] * nproc, 'micro': q['micro'], 'p0': q['p0'], 'p1': q['p1'], 'stepcap': 60 * limit + 600000, 'strtok_isolated': q.get('isolated', 1)}
        if 'sw' in q:
            j['explicit'] = 1
            j['sw'] = q['sw']
        j.update(kw)
        j['stepcap'] += 100 * sum(len(x or '') for x in kw.get('sel', [])) * (self.spec['nthreads'] + 1) * len(self.spec['mutate'])  # parsing the selection
        r = self.run(j)
        STATS['steps'] += r.steps
        STATS['switches'] += r.nswitch
        STATS['preempt'] += r.npreempt
        STATS['hashes'].add(r.hash)
        for f in r.fired:
            STATS['faults'][{0: 'error', 1: 'short write', 2: 'sticky error', 3: 'crash before call', 4: 'crash after call'}.get(f[1], '?') + ' ' + SYSNAME.get(f[3], str(f[3]))] += 1
        return r

    def run(self, job):
        STATS['runs'] += 1
        r = get_sim().run(job)
        if r.bad == 'timeout':
            r = get_sim().run(job)
            if r.bad == 'timeout':
                if job['so'][0].endswith('/orig/prog.so') or '/ref' in job['so'][0]:
                    raise Skip('reference run timed out')
                raise Violation('no progress: the execution blocks outside the simulator')
        if r.bad and r.bad != 'timeout':
            if 'buffer full' in r.bad or 'table full' in r.bad:
                raise Skip(r.bad)
            raise CheckError('simulator: ' + r.bad)
        LAST['r'] = r
        return r


SYSNAME = {257: 'open', 2: 'open', 1: 'write', 20: 'writev', 3: 'close'}
LAST = {}


def new_stats():
    return {'runs': 0, 'steps': 0, 'switches': 0, 'preempt': 0, 'hashes': set(), 'faults': collections.Counter(), 'skips': collections.Counter(), 'cases': 0, 'killed': 0,
            'mutants': 0, 'selected': 0, 'programs': 0, 'threads': collections.Counter(), 'kinds': collections.Counter(), 'sample': None, 'crash_points': 0, 'stalls': 0, 'loc': 0, 'known': 0}


STATS = new_stats()


def per_proc(r, p):
    return [e[1:] for e in r.ev if e[0] == p]


def hung(r):
    return any(x[1] in (5,) for x in r.proc)


def diff(a, b):
    """None when the histories agree; a description otherwise. a: expected, b: observed (events of one process)."""
    sa, sb = bool(a) and a[-1][1] == 'signal', bool(b) and b[-1][1] == 'signal'
    if sa or sb:
        if sa and sb:
            x, y = a[:-1], b[:-1]
            n = min(len(x), len(y))
            # operands may be evaluated in either order before the fault: one history is a prefix of the other
            return None if x[:n] == y[:n] else 'histories differ before a fault'
        return 'expected %s, observed %s' % (a[-1] if sa else 'no fault', b[-1] if sb else 'no fault')
    if a == b:
        return None
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return 'event %d: expected %s, observed %s' % (i, show(x), show(y))
    return 'differ'


def show(e):
    return 'nothing' if e is None else 'thread %d %s(%d,%d)=%d' % e


# ------------------------------------------------------------------ judges: (program, case) -> raises Violation / Skip
def judge_none(P, q):  # C07
    o = P.plain('orig', q)
    if hung(o):
        raise Skip('original does not terminate')
    m = P.micro('mut', q, o.steps, sel=[q['sel']])
    d = diff(per_proc(o, 0), per_proc(m, 0))
    if d and 'signal' in str(o.ev[-1:]) and 'fault' in d:
        raise Skip('original faults')
    if d:
        raise Violation('history differs from the original with selection %r: %s' % (q['sel'], d))
    if m.proc[0][1] != o.proc[0][1]:
        raise Violation('process end status %d, original %d' % (m.proc[0][1], o.proc[0][1]))
    if m.proc[0][6] != o.proc[0][6] and m.proc[0][1] in (1, 6):
        raise Violation('the instrumented program wrote %d times to its descriptors, the original %d times' % (m.proc[0][6], o.proc[0][6]))


def judge_select(P, q):  # C08, C04
    f = P.plain('ref', q, ref=q['ids'])
    if hung(f):
        raise Skip('mutated reference does not terminate')
    m = P.micro('mut', q, f.steps, sel=[q['sel']])
    d = diff(per_proc(f, 0), per_proc(m, 0))
    if not d:
        o = P.plain('ref', q)
        if o.ev != f.ev:
            STATS['killed'] += 1
        return
    if not ub_free(P, q):
        raise Skip('mutant executes undefined behaviour')
    raise Violation('history differs from the program with exactly mutants %s applied (%s), selection %r: %s' % (
        q['ids'], '; '.join(describe(P, i) for i in q['ids'][:4]), q['sel'], d))


def describe(P, i):
    g = P.byid[i]
    return '%s %s at %s: %s' % (g.kind, dict(g.inst)[i], P.spec['mutate'][g.file], g.text[:60].replace('\n', ' '))


def ub_free(P, q):
    a = P.plain('ref', q, ref=q['ids'])
    b = P.plain('refub', q, ref=q['ids'])
    return not hung(b) and not any(e[2] == 'signal' and e[3] == 4 for e in b.ev) and a.ev == b.ev


def track_file(pre=None):
    p = os.path.join(vlib.scratch_base(), 'track.txt')
    if os.path.isdir(p):
        os.rmdir(p)
    if os.path.lexists(p):
        os.unlink(p)
    if pre is not None:
        with open(p, 'w') as f:
            f.write(pre)
    return p


def judge_track_quiet(P, q):  # C09
    n = q.get('nproc', 1)
    o = P.plain('orig', q, nproc=n)
    if hung(o):
        raise Skip('original does not terminate')
    kw = {}
    target = q['target']
    clean = None
    if target != 'unset':
        p = track_file('5\n' if target == 'append' else None)
        if target == 'missing':
            p = os.path.join(vlib.scratch_base(), 'nodir', 'track.txt')
        elif target == 'isdir':
            os.makedirs(p)
        elif target == 'devfull':
            p = '/dev/full'
        elif target == 'empty':
            p = ''
        if target == 'empty':
            kw['track'] = ''
        else:
            kw['track'] = p
    if q.get('plan'):
        kw['plan'] = q['plan']
    if q.get('filefault') and 'sw' not in q:
        kw['filefault'] = q['filefault']
    k = P.micro('track', q, o.steps, nproc=n, **kw)
    q['_fired'] = [list(x) for x in k.fired]
    if target == 'isdir':
        shutil.rmtree(kw['track'], ignore_errors=True)
    for p in range(n):
        d = diff(per_proc(o, p), per_proc(k, p))
        if d and 'signal' in str(o.ev[-1:]) and 'fault' in d:
            raise Skip('original faults')
        if d:
            raise Violation('history differs from the original (tracking file: %s, %d faults): %s' % (target, len(k.fired), d))
        if k.proc[p][1] != o.proc[p][1]:
            raise Violation('process end status %d, original %d (tracking file: %s)' % (k.proc[p][1], o.proc[p][1], target))
        nsys, nopen, nclose, held, nout = k.proc[p][2:7]
        if nout != o.proc[p][6] and k.proc[p][1] in (1, 6):
            raise Violation('the tracking build wrote %d times to descriptors other than the tracking file, the original %d times (tracking file: %s)' % (nout, o.proc[p][6], target))
        if held:
            raise Violation('a tracking descriptor is kept open while the program runs (%d operations, tracking file: %s)' % (held, target))
        if nopen != nclose and k.proc[p][1] == 1:
            raise Violation('descriptor leak: tracking file opened %d times, closed %d times (tracking file: %s)' % (nopen, nclose, target))
        bound = 40 * (len(P.ids()) + 4)
        if nsys > bound:
            raise Violation('unbounded work: %d system calls on the tracking file for %d mutants' % (nsys, len(P.ids())))


def judge_reached(P, q):  # C10, C04
    n = q.get('nproc', 1)
    f = P.plain('ref', q, nproc=n)
    if hung(f):
        raise Skip('reference does not terminate')
    pre = q.get('pre', '')
    path = track_file(pre if pre else None)
    kw = {'track': path}
    if q.get('crash'):
        kw['crash'] = q['crash']
    if q.get('plan'):
        kw['plan'] = q['plan']
    k = P.micro('track', q, f.steps, nproc=n, **kw)
    try:
        data = open(path).read()
    except FileNotFoundError:
        data = ''
    crashed = [x[1] == 2 for x in k.proc]
    if not any(crashed):
        for p in range(n):
            d = diff(per_proc(f, p), per_proc(k, p))
            if d:
                raise Skip('execution differs from the reference (decided by C09)')
    if not data.startswith(pre):
        raise Violation('earlier content of the tracking file was not preserved')
    body = data[len(pre):]
    lines = body.split('\n')
    if lines[-1] != '':
        raise Violation('the tracking file ends in an incomplete line %r' % lines[-1][:40])
    for l in lines[:-1]:
        if not re.fullmatch(r'[0-9]+', l):
            raise Violation('line %r of the tracking file is not one id' % l[:60])
    got = collections.Counter(int(l) for l in lines[:-1])
    must, may = collections.Counter(), collections.Counter()
    outer = P.outer()
    for p in range(n):
        begun = collections.defaultdict(lambda: collections.defaultdict(lambda: 1 << 30))
        ended = collections.defaultdict(lambda: collections.defaultdict(lambda: 1 << 30))
        # The operands of one expression may be evaluated in any order, so a group may be reached as soon as the outermost
        # expression around it begins, and must have been reached when that expression has been evaluated.
        wait = collections.defaultdict(set)
        complete = set()
        unfinished = {}
        for (pp, t, nops, g, end) in f.cov:
            if pp != p:
                continue
            if not end:
                begun[g][t] = min(begun[g][t], nops)
                if outer[g] == g:
                    unfinished[t, g] = unfinished.get((t, g), nops)
                continue
            unfinished.pop((t, g), None)
            complete.add(g)
            wait[t, outer[g]].add(g)
            if outer[g] == g:
                for x in wait.pop((t, g), ()):
                    ended[x][t] = min(ended[x][t], nops)
        for g, ts in begun.items():
            for t in ts:
                ts[t] = min(ts[t], begun[outer[g]][t] if outer[g] in begun else ts[t])
        # an operand did not return: operands the reference did not get to may have been evaluated before it
        for (t, o), nops in unfinished.items():
            for g in P.bygid:
                if outer[g] == o:
                    begun[g][t] = min(begun[g][t], nops)
        ops = k.proc[p][7:]
        done = k.proc[p][1] == 1 and not any(e[0] == p and e[2] == 'signal' for e in k.ev)
        full = f.proc[p][1] == 1
        for g, ts in begun.items():
            ids = [i for i, a in P.bygid[g].inst]
            if done and full:
                b, e = True, g in complete  # an operand may have thrown
            else:
                b = any(c <= (ops[t] if t < len(ops) else 0) for t, c in ts.items())
                e = b and all(ended[g][t] < ops[t] for t, c in ts.items() if c <= ops[t])
            for i in ids:
                may[i] += b
                must[i] += e
    known = P.ids()
    for i, c in got.items():
        if i not in known:
            raise Violation('the tracking file lists id %d, which no file owns' % i)
        if c > may[i]:
            raise Violation('mutant %d (%s) is listed %d times but %d process(es) reached it' % (i, describe(P, i) if i in P.byid else '?', c, may[i]))
    for i, c in must.items():
        if c > got[i]:
            raise Violation('mutant %d (%s) was reached in %d process(es) but is listed %d times' % (i, describe(P, i), c, got[i]))
    if any(crashed):
        STATS['crash_points'] += 1


def tracked_set(P, q, o):
    path = track_file(None)
    k = P.micro('track', {**q, 'micro': 1, 'p0': 0, 'p1': 0, **({'sw': []} if 'sw' in q else {})}, o.steps, track=path)
    try:
        s = open(path).read().split()
    except FileNotFoundError:
        s = []
    return {int(x) for x in s if re.fullmatch(r'[0-9]+', x)}, k


def judge_killed_tracked(P, q):  # C11
    P.so('mut'), P.so('track')
    if norm_info(P.info['mut'], P.dir + '/mut/') != norm_info(P.info['track'], P.dir + '/track/'):
        raise Violation('the two modes write different mutation info: %s' % first_diff(norm_info(P.info['mut'], P.dir + '/mut/'), norm_info(P.info['track'], P.dir + '/track/')))
    o = P.plain('orig', q)
    if hung(o):
        raise Skip('original does not terminate')
    tr, k = tracked_set(P, q, o)
    if diff(per_proc(o, 0), per_proc(k, 0)):
        raise Skip('tracking build differs from the original (decided by C09)')
    ids = sorted(P.ids() - tr)
    if q['mode'] == 'all':
        sel = ids
    elif q['mode'] == 'half':
        r = random.Random(q['pick'])
        sel = [i for i in ids if r.random() < 0.5]
    elif q['mode'] == 'list':
        sel = [i for i in q['list'] if i in ids]
    else:
        r = random.Random(q['pick'])
        sel = [r.choice(ids)] if ids else []
    if not sel:
        raise Skip('every mutant is reached')
    STATS['selected'] += len(sel)
    m = P.micro('mut', q, o.steps, sel=[','.join(map(str, sel))])
    q['_sel'] = sel
    d = diff(per_proc(o, 0), per_proc(m, 0))
    if d:
        raise Violation('%s, which tracking does not report as reached, change%s the history: %s' % (
            'mutants %s' % sel[:8] if len(sel) > 1 else 'mutant %d' % sel[0], '' if len(sel) > 1 else 's', d))


def norm_info(info, prefix):
    return json.loads(json.dumps(info).replace(prefix, '').replace(os.path.realpath(prefix) + '/', ''))


def first_diff(a, b, path=''):
    if type(a) != type(b):
        return '%s: %s vs %s' % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_diff(a.get(k), b.get(k), path + '/' + k)
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, path + '/%d' % i)
        return '%s: %d vs %d entries' % (path, len(a), len(b))
    return '%s: %r vs %r' % (path, a, b)


def judge_interference(P, q):  # C12
    o = P.plain('orig', q)
    if hung(o):
        raise Skip('original does not terminate')
    orig = P.run({**P.base(q), 'so': [P.so('orig')], 'micro': q['micro'] + 1, 'p0': 3000, 'p1': 3000, 'stepcap': 400000}) if q.get('broad') else o
    if orig.race:
        raise Skip('original program has a race')
    kw = {}
    if q['variant'] == 'track':
        kw['track'] = track_file(None)
    else:
        kw['sel'] = [q['sel']]
    if q.get('stall'):
        kw['stall'] = q['stall']
        STATS['stalls'] += 1
    m = P.micro(q['variant'], q, o.steps, **kw)
    if m.race:
        r = m.race[0]
        raise Violation('data race in the %s build: threads %s and %s, address %s, code %s and %s' % (
            'tracking' if q['variant'] == 'track' else 'mutating', r[1], r[2], r[0], where(P, q['variant'], r[5]), where(P, q['variant'], r[6])))
    if m.waitstall:
        raise Violation('a thread waits for a stalled thread inside the instrumentation (%s build)' % q['variant'])
    if q.get('stall'):
        # a stalled thread legitimately reorders the operations of the others; what counts is that they all finish
        if q.get('owned'):
            return  # a mutant may loop
        if any(e[2] == 'hang' and e[3] == 0 for e in m.ev) or (any(e[2] == 'deadlock' for e in m.ev) and not any(e[2] == 'deadlock' for e in o.ev)):
            raise Violation('no progress while one thread is stalled (%s build)' % q['variant'])
        return
    if q['variant'] == 'track' or not q.get('owned'):
        d = diff(per_proc(o, 0), per_proc(m, 0))
        if d and not ('signal' in str(o.ev[-1:])):
            raise Violation('what the program observes differs from the original (%s build%s): %s' % (q['variant'], ', thread stalled' if q.get('stall') else '', d))


def where(P, variant, pc):
    return 'pc %s' % pc


def judge_strtok(P, q):
    """The known finding: strtok in the selection code of C files (not isolated)."""
    f = P.plain('ref', q, ref=q['ids'])
    m = P.micro('mut', q, f.steps, sel=[q['sel']])
    if diff(per_proc(f, 0), per_proc(m, 0)) and (m.strtok_race or m.strtok_clobber):
        raise Violation('strtok state shared')


JUDGE = {'C07': judge_none, 'C08': judge_select, 'C09': judge_track_quiet, 'C10': judge_reached, 'C11': judge_killed_tracked, 'C12': judge_interference,
         'C04s': judge_select, 'C04r': judge_reached}


# ------------------------------------------------------------------ case generation
def sched(r):
    """A micro schedule: mostly-preemptive, sparse, or instrumentation-focused."""
    k = r.randrange(5)
    p0, p1 = [(200, 4000), (2000, 20000), (8000, 40000), (0, 60000), (30000, 30000)][k]
    return {'micro': r.randrange(1, 1 << 30), 'p0': p0, 'p1': p1}


def env(r):
    return {'macro': r.randrange(1, 1 << 30), 'envfault': r.choice([0, 0, 10, 30, 60]), 'seqmacro': 1 if r.random() < 0.1 else 0}


def foreign(r, top):
    return str(top + r.choice([0, 0, 1, 63, 64, 1000, 100000]))


def fmt(r, ids, top):
    l = [str(i) for i in ids]
    if r.random() < 0.3:
        l += [foreign(r, top) for _ in range(r.choice([1, 2, 5]))]
    if r.random() < 0.2 and l:
        l.append(r.choice(l))
    r.shuffle(l)
    s = ','.join(l)
    if r.random() < 0.25:
        s += ','
    return s


def selectable(P):
    """(id, group, action) of the mutants whose mutated program is fully defined by the edited text."""
    out = []
    for g in P.groups:
        outer = g
        for h in P.groups:
            if h.file == g.file and h.kind != 'removeStmt' and h.start <= g.start and h.end >= g.end and (h.end - h.start) > (outer.end - outer.start):
                outer = h
        for i, a in g.inst:
            if a == 'RemoveStmt' and '/*END*/' in g.text[:20]:
                continue
            if 'Inc' in a or 'Dec' in a:
                m = re.search(r'[A-Za-z_]\w*', g.text)
                if not m or len(re.findall(r'\b%s\b' % m.group(0), outer.text)) > 1:
                    continue
            out.append((i, g, a))
    return out


def compatible(chosen, c):
    i, g, a = c
    for (j, h, b) in chosen:
        if h is g:
            return False
        if h.file != g.file or h.end <= g.start or g.end <= h.start:
            continue
        inner = (g, a) if (g.end - g.start, -refbuild.rank(g)) <= (h.end - h.start, -refbuild.rank(h)) else (h, b)
        if any(x in inner[1] for x in ('Inc', 'Dec', 'Div', 'Rem')):
            return False
    return True


def cases(prop, P, r, tier):
    """Yields (judge key, case) for one program."""
    mult = 1 if tier == 'quick' else 2
    if prop == 'C07':
        P.so('orig'), P.so('mut')
        ids = P.ids()
        top = max(ids) + 1 if ids else 0
        for _ in range(12 * mult):
            e = env(r)
            for _ in range(4):
                sel = r.choice([None, None, '', foreign(r, top), ','.join(foreign(r, top) for _ in range(r.choice([2, 3, 9]))), foreign(r, top) + ',', ','])
                yield 'C07', {**e, **sched(r), 'sel': sel}
        return
    if prop in ('C08', 'C04'):
        P.so('mut'), P.so('ref')
        P.ids()
        cs = selectable(P)
        if not cs:
            return
        top = max(P.ids()) + 1
        nsel = (70 if prop == 'C08' else 45) * mult
        byfile = collections.defaultdict(list)
        for c in cs:
            byfile[c[1].file].append(c)
        e = env(r)
        reached = None
        for k in range(nsel):
            if k % 8 == 0:
                e = env(r)
                f = P.plain('ref', e)
                reached = {c[3] for c in f.cov}
            pool = byfile[r.choice(sorted(byfile))] if r.random() < 0.5 else cs
            if r.random() < 0.75:
                hot = [c for c in pool if c[1].gid in reached]
                pool = hot or pool
            if r.random() < 0.15:  # word boundaries of the selection bit set
                fl = r.choice(sorted(byfile))
                lo = min(i for g in P.groups if g.file == fl for i, a in g.inst)
                edge = [c for c in byfile[fl] if (c[0] - lo) % 64 in (0, 1, 62, 63)]
                pool = edge or pool
            first = r.choice(pool)
            if r.random() < 0.4:  # every kind of mutant gets its turn, however rare it is in the program
                strata = collections.defaultdict(list)
                for c in pool:
                    strata[(c[1].file, c[1].kind, c[2], c[1].v.get('operator'))].append(c)
                first = r.choice(strata[r.choice(sorted(strata, key=repr))])
            chosen = [first]
            for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4, 8])):
                c = r.choice(cs if r.random() < 0.5 else pool)
                if compatible(chosen, c):
                    chosen.append(c)
            ids = [c[0] for c in chosen]
            STATS['selected'] += len(ids)
            q = {**e, **sched(r), 'ids': ids, 'sel': fmt(r, ids, top)}
            yield ('C08' if prop == 'C08' else 'C04s'), q
            if r.random() < 0.3:
                yield ('C08' if prop == 'C08' else 'C04s'), {**q, **sched(r)}
        if prop == 'C08':
            return
    if prop == 'C09':
        P.so('orig'), P.so('track')
        for _ in range(10 * mult):
            e = env(r)
            for _ in range(5):
                q = {**e, **sched(r), 'target': r.choice(['unset', 'ok', 'ok', 'ok', 'append', 'missing', 'isdir', 'devfull', 'empty'])}
                q['nproc'] = r.choice([1, 1, 1, 2])
                if q['target'] in ('ok', 'append'):
                    x = r.random()
                    if x < 0.35:
                        q['filefault'] = r.choice([10, 40, 100])
                    elif x < 0.75:
                        q['plan'] = [[p, r.randrange(0, r.choice([3, 12, 60])), r.choice([0, 0, 1, 2, 2]), r.choice([28, 5, 13, 24, 11, 1, 30, 122])] for p in range(q['nproc']) for _ in range(r.choice([1, 1, 3]))]
                yield 'C09', q
        return
    if prop in ('C10', 'C04'):
        P.so('ref'), P.so('track')
        for _ in range((10 if prop == 'C10' else 5) * mult):
            e = env(r)
            for _ in range(5):
                q = {**e, **sched(r), 'nproc': r.choice([1, 1, 1, 2, 3]), 'pre': r.choice(['', '', '7\n', 'text\n', '0\n1\n2\n' * 5, '9' * 5000 + '\n'])}
                x = r.random()
                f = P.plain('ref', q, nproc=q['nproc'])
                if prop == 'C10' and x < 0.35 and not hung(f):
                    q['crash'] = [[p, r.randrange(1, max(2, int(f.steps * r.choice([2, 8, 25]))))] for p in range(q['nproc']) if r.random() < 0.7 or q['nproc'] == 1]
                elif prop == 'C10' and x < 0.6:
                    q['plan'] = [[r.randrange(q['nproc']), r.randrange(0, r.choice([3, 12, 60])), r.choice([3, 4]), 0]]
                yield ('C10' if prop == 'C10' else 'C04r'), q
        return
    if prop == 'C11':
        P.so('orig'), P.so('mut'), P.so('track')
        for _ in range(12 * mult):
            e = env(r)
            for mode in ('all', 'half', 'half', 'one'):
                yield 'C11', {**e, **sched(r), 'mode': mode, 'pick': r.randrange(1 << 30)}
        return
    if prop == 'C12':
        P.so('orig'), P.so('mut'), P.so('track')
        ids = sorted(P.ids())
        top = ids[-1] + 1 if ids else 0
        for _ in range(10 * mult):
            e = env(r)
            o = P.plain('orig', e)
            for _ in range(6):
                q = {**e, **sched(r), 'variant': r.choice(['mut', 'track']), 'broad': P.spec.get('broad', False)}
                if q['variant'] == 'mut':
                    x = r.random()
                    if x < 0.3:
                        q['sel'] = None
                    elif x < 0.6 or not ids or q['broad']:  # a mutant of a broad program may take the wrong lock, corrupt memory or loop in a library
                        q['sel'] = ','.join(foreign(r, top) for _ in range(r.choice([1, 3])))
                    else:
                        q['sel'] = ','.join(str(r.choice(ids)) for _ in range(r.choice([1, 3, 6])))
                        q['owned'] = True
                if r.random() < 0.4 and o.steps:
                    q['stall'] = [0, r.randrange(P.spec['threads']), r.randrange(1, max(2, int(o.steps * r.choice([2, 10, 30]))))]
                yield 'C12', q
        return


def program_for(prop, seed, i, tier):
    r = vlib.rng(prop, seed, i)
    kw = {}
    broad = {'C07': 0.75, 'C09': 0.6, 'C12': 0.5, 'C11': 0.5, 'C08': 0, 'C10': 0, 'C04': 0}[prop]
    kw['broad'] = r.random() < broad and HAVE_BROAD
    if prop == 'C04':
        kw['nfiles'] = r.choice([2, 3, 3, 4])
        kw['sizes'] = [r.choice(['tiny', 'tiny', 'small', 'medium']) for _ in range(kw['nfiles'])]
    elif i % 4 == 0:
        kw['nfiles'] = r.choice([2, 3])
    if prop in ('C10', 'C12'):
        kw['nthreads'] = r.choice([2, 2, 3, 4])
    if i % 7 == 3:
        kw['langs'] = ['c'] * 4
    elif i % 7 == 5:
        kw['langs'] = ['cc'] * 4
    if kw.get('langs'):
        kw['nfiles'] = kw.get('nfiles') or r.choice([1, 2])
        kw['langs'] = kw['langs'][:kw['nfiles']]
    opts = ['--no-mutation-opts'] if r.random() < 0.3 else []
    for attempt in range(20):
        spec = gen_prog.generate('%s|%s|%s|%d' % (prop, seed, i, attempt), **kw)
        spec['broad'] = kw['broad']
        P = Prog(spec, opts, pch=r.random() < 0.92)
        try:
            o = P.plain('orig', {'macro': 1, 'envfault': 10})
        except Skip:
            continue
        if hung(o) or len(o.ev) < 2 or any(e[2] in ('signal', 'deadlock') for e in o.ev) or len(o.ev) > 600:
            continue
        if o.race:
            STATS['skips']['generated program has a race'] += 1
            continue
        return P, r
    raise CheckError('no usable program')


HAVE_BROAD = os.path.exists(os.path.join(HERE, 'gadgets.py'))


def task(a):
    prop, seed, i, tier, stop = a
    global STATS
    STATS = new_stats()
    viol = []
    err = None
    try:
        if time.time() > stop:
            return i, STATS, viol, None
        P, r = program_for(prop, seed, i, tier)
        STATS['programs'] = 1
        STATS['threads'][P.spec['nthreads']] += 1
        STATS['loc'] += sum(t.count('\n') for n, t in P.spec['files'].items() if n in P.spec['mutate'])
        for n in P.spec['mutate']:
            STATS['kinds']['.' + n.split('.')[1]] += 1
        seen = set()
        try:
            for key, q in cases(prop, P, r, tier):
                STATS['cases'] += 1
                if time.time() > stop:
                    break
                try:
                    JUDGE[key](P, q)
                    if STATS['sample'] is None and STATS['cases'] > 3:
                        STATS['sample'] = {'program_seed': '%s|%s|%s' % (prop, seed, i), 'files': P.spec['mutate'], 'threads': P.spec['threads'], 'case': {k: v for k, v in q.items() if not k.startswith('_')}}
                except Skip as e:
                    STATS['skips'][str(e)[:60]] += 1
                except Violation as e:
                    cls = klass(str(e))
                    if cls not in seen:
                        seen.add(cls)
                        viol.append((i, key, P.spec, P.opts, P.pch, {k: v for k, v in q.items() if not k.startswith('_')}, str(e)))
                    if len(viol) >= 2:
                        break
        except Skip as e:
            STATS['skips'][str(e)[:60]] += 1
        except Violation as e:  # while building
            viol.append((i, prop, P.spec, P.opts, P.pch, {}, str(e)))
        STATS['mutants'] += len(P.ids()) if P.info else 0
    except CheckError as e:
        err = 'CheckError: %s' % e
    except Exception:
        err = traceback.format_exc()
    return i, STATS, viol, err


def klass(m):
    m = m.split(':')[0]
    return re.sub(r'[0-9]+|\[.*\]|\(.*\)', '', m)[:60]


def run_one(key, spec, opts, pch, q):
    """Judges a single case from scratch; returns (message or None, result hash)."""
    P = Prog(spec, opts, pch)
    LAST.clear()
    try:
        if not q:
            P.so('orig')
            for v in ('mut', 'track'):
                P.so(v)
            return None, ''
        if key in ('C08', 'C04s', 'C10', 'C04r'):
            P.reference()
        JUDGE[key](P, q)
    except Skip as e:
        return None, 'skip %s' % e
    except Violation as e:
        return str(e), LAST['r'].hash if 'r' in LAST else ''
    return None, ''


def minimise(key, spec, opts, pch, q, cls, deadline):
    """Shrinks the selection, the fault plan and the schedule of a failing case."""
    P = Prog(spec, opts, pch)

    def fails(c):
        if time.time() > deadline:
            return False
        try:
            JUDGE[key](P, c)
        except Violation as e:
            return klass(str(e)) == cls
        except Skip:
            return False
        return False
    if key in ('C08', 'C04s', 'C10', 'C04r'):
        P.reference()
    if not fails(q):
        return q
    last = LAST['r']
    q = {k: v for k, v in q.items()}
    # simplify the schedule first: none at all, else the recorded switches, minimised
    c = {**q, 'p0': 0, 'p1': 0}
    if fails(c):
        q = c
    if q.get('filefault'):
        c = {**q, 'plan': [[0, f[0], f[1], f[2]] for f in q.get('_fired', [])]}
        c.pop('filefault')
        if q.get('nproc', 1) == 1 and fails(c):
            q = c
    for k in ('plan', 'crash'):
        i = 0
        while q.get(k) and i < len(q[k]):
            c = {**q, k: q[k][:i] + q[k][i + 1:]}
            if fails(c):
                q = c
            else:
                i += 1
    if q.get('stall'):
        c = {k: v for k, v in q.items() if k != 'stall'}
        if fails(c):
            q = c
    if len(q.get('ids', [])) > 1:
        i = 0
        while i < len(q['ids']) and len(q['ids']) > 1:
            ids = q['ids'][:i] + q['ids'][i + 1:]
            c = {**q, 'ids': ids, 'sel': ','.join(map(str, ids))}
            if fails(c):
                q = c
            else:
                i += 1
    if q.get('mode') in ('all', 'half'):
        fails(q)
        sel = q.get('_sel') or []
        n = 2
        while len(sel) > 1 and n <= len(sel):
            step = max(1, len(sel) // n)
            for a in range(0, len(sel), step):
                c = {**q, 'mode': 'list', 'list': sel[:a] + sel[a + step:]}
                if c['list'] and fails(c):
                    q, sel, n = c, c['list'], max(2, n - 1)
                    break
            else:
                if step == 1:
                    break
                n *= 2
    if q.get('nproc', 1) > 1 and not q.get('plan') and not q.get('crash'):
        c = {**q, 'nproc': 1}
        if fails(c):
            q = c
    if (q.get('p0') or q.get('p1')) and not q.get('filefault'):
        if fails(q):
            sw = [list(x) for x in LAST['r'].sw]
            c = {**q, 'sw': sw}
            if fails(c):
                q = c
                n = 2
                while len(q['sw']) >= 2 and time.time() < deadline:
                    step = max(1, len(q['sw']) // n)
                    for a in range(0, len(q['sw']), step):
                        c = {**q, 'sw': q['sw'][:a] + q['sw'][a + step:]}
                        if fails(c):
                            q = c
                            n = max(2, n - 1)
                            break
                    else:
                        if step == 1:
                            break
                        n *= 2
    return {k: v for k, v in q.items() if not k.startswith('_')}


# ------------------------------------------------------------------ the known finding about strtok
STRTOK_SPEC = {
    'files': {'f0.c': '#include "prog.h"\nint fn_1(int a) {\n  int b = a + 3;\n  b = b * 5;\n  sim_obs(1, (long)b);\n  return /*END*/ b - 2;\n}\nvoid thr_0(void) {\n  sim_obs(2, (long)fn_1(4));\n}\nvoid thr_1(void) {\n  sim_obs(3, (long)fn_1(6));\n}\n',
              'prog.h': gen_prog.HEADER % 'int fn_1(int a);\nvoid thr_0(void);\nvoid thr_1(void);',
              'pmain.cc': '#include "prog.h"\nextern "C" void prog_thread(int fn) { if (fn) thr_1(); else thr_0(); }\n'},
    'mutate': ['f0.c'], 'langs': ['c'], 'threads': 2, 'nthreads': 2}
KNOWN = {'C08': 'in C files the selection list is split with strtok, whose state is process-wide: two threads that first consult a selection of several ids at the same time can each miss ids',
         'C12': 'in C files the selection list is split with strtok, whose state is process-wide: concurrent first use in two threads races on it, and a program\'s own strtok scan in progress is lost'}


def known_listed(prop):
    try:
        return [l.strip() for l in open(os.path.join(vlib.VERIF, 'known-findings.txt')) if l.startswith('known: property=%s ' % prop)]
    except FileNotFoundError:
        return []


def known_finding(prop, seed):
    """Exhibits the listed strtok finding; returns True when it (still) occurs."""
    if prop not in KNOWN or not known_listed(prop):
        return False
    P = Prog(STRTOK_SPEC)
    try:
        P.reference()
        want = [g for g in P.groups if g.kind == 'replaceBinaryOperator' and g.v['operator'] in ('Add', 'Mul', 'Sub')]
        ids = [[i for i, a in g.inst if a == 'ReplaceWithLHS'][0] for g in want]
        r = vlib.rng('strtok', seed)
        for k in range(400):
            q = {'macro': 1, 'envfault': 0, 'micro': r.randrange(1, 1 << 30), 'p0': 2000, 'p1': 30000, 'ids': ids, 'sel': ','.join(map(str, ids)), 'isolated': 0}
            try:
                judge_strtok(P, q)
            except Violation:
                STATS['known'] += 1
                return True
    except (Skip, Violation, IndexError):
        pass
    return False


def probe(body, mark=''):
    return {'files': {'f0.cc': mark + '#include "prog.h"\n' + body,
                      'prog.h': gen_prog.HEADER % 'void thr_0(void);',
                      'pmain.cc': '#include "prog.h"\nextern "C" void prog_thread(int fn) { thr_0(); }\n'},
            'mutate': ['f0.cc'], 'langs': ['cc'], 'threads': 1, 'nthreads': 1}


# Listed findings of C07: one fixed program each, named in known-findings.txt.
PROBES07 = {
    'temporary-destroyed-early': ('a temporary is destroyed when the mutated expression that contains it ends, not when the full-expression does', probe(
        'struct S { int v; S(int x) : v(x) {} ~S() { sim_obs(9, v); } };\nstatic int f(int a, int b) { sim_obs(1, a + b); return a; }\nvoid thr_0(void) { f(S(4).v + 1, 2); }\n')),
    'local-constant-in-lambda': ('a lambda that uses a local constant without capturing it no longer compiles, because the constant\'s initialiser was mutated', probe(
        'void thr_0(void) { const int k = 3; auto l = [](int a) { return a + k; }; sim_obs(1, l(4)); }\n')),
    'macro-unary-operator': ('a unary operator that comes from a macro is applied twice: it is not removed from the operand of the mutator function', probe(
        '#define NEG -\nvoid thr_0(void) { int a = 4; a = NEG a; sim_obs(1, a); }\n')),
    'co_yield-statement': ('a statement that ends in a co_yield expression no longer compiles (clang 17 gives the expression a wrong end)', probe(
        '#include <coroutine>\nstruct T { struct promise_type { int v = 0; T get_return_object() { return T{std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() { return {}; }\n'
        ' std::suspend_always final_suspend() noexcept { return {}; } std::suspend_always yield_value(int x) { v = x; return {}; } void return_void() {} void unhandled_exception() {} }; std::coroutine_handle<promise_type> h; };\n'
        'static T f(int a) { co_yield a + 1; }\nvoid thr_0(void) { T t = f(2); sim_obs(1, t.h.promise().v); t.h.destroy(); }\n', rt.MARK20)),
}


def probes07():
    """The listed C07 findings that still occur."""
    listed = [l.split()[2] for l in known_listed('C07')]
    out = []
    for name, (text, spec) in PROBES07.items():
        if name not in listed:
            continue
        try:
            judge_none(Prog(spec), {'macro': 1, 'envfault': 0, 'micro': 1, 'p0': 0, 'p1': 0, 'sel': None})
        except Violation:
            STATS['known'] += 1
            out.append('%s: %s' % (name, text))
        except Skip as e:
            raise CheckError('probe %s: %s' % (name, e))
    return out


# ------------------------------------------------------------------ main
def setup():
    vlib.build_rtsim()
    CFG['dredd'] = vlib.build_dredd('dbg')
    rt.pch()


def replay(path):
    d = json.load(open(path))
    setup()
    m, h = run_one(d['judge'], d['program'], d['options'], d['pch'], d['case'])
    if m and klass(m) == d['class']:
        print('REPRODUCED property=%s %s' % (d['property'], m))
        print('execution hash %s (recorded %s)' % (h, d['hash']))
        return 1
    print('NOT REPRODUCED (%s %s)' % (m, h))
    return 0


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def search(prop, seed, tier):
    """Returns (stats, violations, errors, tasks done, search seconds)."""
    ntasks, cap = BUDGET[prop][tier]
    tb = time.time()
    stop = tb + cap
    tot = new_stats()
    samples, viol, errs, done = [], [], [], 0
    pool = Pool(vlib.NCPU, init_worker)
    pids = [w.pid for w in pool._pool]
    try:
        for i, st, v, err in pool.imap_unordered(task, ((prop, seed, i, tier, stop) for i in range(ntasks)), chunksize=1):
            done += 1
            for k, x in st.items():
                if k == 'sample':
                    if x and len(samples) < 4:
                        samples.append(x)
                elif k == 'hashes':
                    tot[k] |= x
                elif isinstance(x, collections.Counter):
                    tot[k].update(x)
                else:
                    tot[k] += x
            if err:
                errs.append((i, err))
            viol += v
            if len(viol) >= 3 or time.time() > stop + 60 or len(errs) > 10:
                break
    finally:
        pool.terminate()
        pool.join()
        for p in pids:
            shutil.rmtree('/dev/shm/dreddsim-%08d' % p, ignore_errors=True)
    tot['samples'] = samples
    return tot, viol, errs, done, time.time() - tb


def report(prop, seed, viol, errs):
    """Gates, minimises and reports; returns the messages reported."""
    reported, seen = [], set()
    viol.sort(key=lambda x: x[0])
    for (i, key, spec, opts, pch, q, m) in viol:
        cls = klass(m)
        if cls in seen:
            continue
        seen.add(cls)
        m2, h2 = run_one(key, spec, opts, pch, dict(q))
        if not m2 or klass(m2) != cls:
            errs.append((i, 'violation did not repeat: %s (%s %s)' % (m, m2, h2)))
            continue
        small = minimise(key, spec, opts, pch, q, cls, time.time() + 40) if q else q
        m3, h3 = run_one(key, spec, opts, pch, dict(small))
        if not m3 or klass(m3) != cls:
            small, m3, h3 = q, m2, h2
        path = vlib.replay_path(prop, 'seed%d-program%d' % (seed, i))
        json.dump({'property': prop, 'judge': key, 'program': spec, 'options': opts, 'pch': pch, 'case': small, 'class': cls, 'message': m3, 'hash': h3, 'seed': seed, 'task': i}, open(path, 'w'), indent=1)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 1 or 'REPRODUCED' not in r.stdout:
            errs.append((i, 'replay did not reproduce: ' + r.stdout[-500:]))
            continue
        print('violation: ' + m3)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        reported.append(m3)
        if len(reported) >= 2:
            break
    return reported


def coverage(tot, done, ntasks, wall):
    return {
        'evaluations': tot['runs'], 'distinct_nontrivial': len(tot['hashes']),
        'rule': 'each case is a generated multi-file C/C++ program, a mutant selection or tracking set-up, a macro schedule with environment faults and a micro schedule with file faults, crashes and stalls; one evaluation is one simulated execution; distinct = distinct hash of the execution (operations with results, context switches with their step, races) of the instrumented program',
        'samples': tot['samples'] or [{'note': 'none'}], 'cases': tot['cases'], 'programs': tot['programs'], 'programs_planned': ntasks, 'source_lines': tot['loc'], 'mutants_in_programs': tot['mutants'],
        'mutants_selected': tot['selected'], 'selections_that_changed_the_history': tot['killed'], 'crash_runs': tot['crash_points'], 'stalls_injected': tot['stalls'],
        'simulated_runs_per_hour': int(tot['runs'] / max(wall, 0.1) * 3600), 'seeds_per_hour': int(tot['cases'] / max(wall, 0.1) * 3600),
        'simulated_time': 'logical: %d scheduling points' % tot['steps'], 'context_switches': tot['switches'], 'preemptions_at_interesting_points': tot['preempt'],
        'faults_injected': dict(tot['faults']), 'skipped': dict(tot['skips']), 'threads': {str(k): v for k, v in tot['threads'].items()}, 'files': dict(tot['kinds']),
        'real_components': ['dredd built from /repo', 'its injected code and preludes, compiled by clang 17', 'libstdc++, glibc stdio', 'kernel files and descriptors'],
        'stub_components': ['thread scheduling', 'environment calls, locks and shared counters of the generated program', 'getenv, strtok, malloc bookkeeping', 'results of faulted system calls'],
    }


ASSUME = ['generated programs are representative; constructs the generator does not produce are not covered', 'code is compiled by clang 17 -O0 -fwrapv for x86-64',
          'races inside the C and C++ libraries are not visible to the detector', 'crash model: a kill preserves what the kernel has accepted', 'sampling: a clean batch is evidence, not proof']


def main():
    if sys.argv[1] == '--replay':
        rc = replay(sys.argv[2])
        finish()
        sys.exit(rc)
    prop = sys.argv[1]
    seed, tier = vlib.seed_tier()
    t0 = time.time()
    setup()
    print('seed %d tier %s property %s' % (seed, tier, prop), flush=True)
    tot, viol, errs, done, wall = search(prop, seed, tier)
    for x in (probes07() if prop == 'C07' else []):
        print('KNOWN-FINDING: property=C07 %s' % x, flush=True)
    if known_finding(prop, seed):
        print('KNOWN-FINDING: property=%s %s' % (prop, KNOWN[prop]), flush=True)
    reported = report(prop, seed, viol, errs) if viol else []
    vlib.write_evidence(prop, 'exploration', coverage(tot, done, BUDGET[prop][tier][0], wall), time.time() - t0, len(reported), ASSUME)
    print('%s: %d programs, %d simulated runs (%d distinct), %d cases, %d skipped, %d faults, %.0fs, %s' % (prop, tot['programs'], tot['runs'], len(tot['hashes']), tot['cases'],
          sum(tot['skips'].values()), sum(tot['faults'].values()), time.time() - t0, 'VIOLATED' if reported else 'held'))
    finish()
    if reported:
        sys.exit(1)
    if errs:
        print('check error in task %d: %s' % errs[0])
        sys.exit(2)
    sys.exit(0)


def finish():
    global SIM
    if SIM is not None:
        SIM.close()
        SIM = None
    vlib.cleanup_scratch()


if __name__ == '__main__':
    try:
        main()
    except CheckError as e:
        print('check error: %s' % e)
        finish()
        sys.exit(2)
