#!/usr/bin/env python3
"""Tool-side checks (C01-C06): seeded search over fault plans, crash points, histories and environments of real dredd runs.

usage: check_tool.py <property> | check_tool.py --replay <file>
"""
import collections, json, os, re, signal, subprocess, sys, time
from multiprocessing import Pool
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib')]
import vlib
import sim
from vlib import CheckError

# tasks per tier, wall-clock cap in seconds
BUDGET = {
    'C01': {'quick': (420, 170), 'thorough': (9000, 2400)},
    'C02': {'quick': (450, 170), 'thorough': (9000, 2400)},
    'C03': {'quick': (430, 170), 'thorough': (9000, 2400)},
    'C04': {'quick': (450, 120), 'thorough': (6000, 1800)},
    'C05': {'quick': (340, 170), 'thorough': (3000, 2400)},
    'C06': {'quick': (430, 170), 'thorough': (6000, 2400)},
}
LEVEL = {'C01': 'fault_enumeration', 'C02': 'fault_enumeration', 'C03': 'fault_enumeration', 'C04': 'exploration', 'C05': 'exploration', 'C06': 'exploration'}

S = None
CFG = None


def get_sim():
    global S
    if S is None or S.owner != os.getpid():
        S = sim.ToolSim(CFG['dredd'], CFG['dsim'], CFG['simenv'], 1)
        S.owner = os.getpid()
    return S


def kind_of(msg):
    """Violation class: the message without names and numbers."""
    m = re.sub(r"'[^']*'|\[[^\]]*\]|\([^)]*\)|\d+", '_', msg)
    return re.sub(r'\S+\.(cc?|h|json)\S*', '_', m)


# ------------------------------------------------------------------ cases
# A case is a JSON-able description of one or more simulated runs; run_case is a pure function of it and of /repo.

def run_case(case, stats=None):
    s = get_sim()
    p = case['property']
    w = case['workload']
    if p in ('C01', 'C02', 'C03'):
        res = s.run(w, w['names'], case['faults'], case.get('env'))
        cats = sim.cats_of(res)
        v = sim.judge(s, w, w['names'], res, cats, {p})
        note(stats, res)
        if case.get('restart') and not v and p in ('C01', 'C03'):
            v += restart(s, case, res, stats)
        return v, res.hash
    if p == 'C04':
        res = s.run(w, w['names'], case['faults'], case.get('env'))
        note(stats, res)
        return judge_ids(s, w, res), res.hash
    if p == 'C05':
        return judge_env(s, case, stats)
    if p == 'C06':
        return judge_history(s, case, stats)
    raise CheckError('unknown property ' + p)


def note(stats, res):
    if stats is None:
        return
    stats['runs'] += 1
    stats['events'] += res.nevents
    stats['crash_points'] += sum(1 for e in res.events if sim.parse_event(e)[1] in ('write', 'writev', 'rename', 'openat', 'unlink', 'ftruncate'))
    stats['hashes'].add(res.hash)
    for e in res.events:
        _, name, path, extra, r = sim.parse_event(e)
        if r[0] == 'ERR':
            stats['faults']['%s:%s' % (name, sim.E.errorcode.get(int(r[1]), r[1]))] += 1
        elif r[0] == 'SHORT':
            stats['faults'][name + ':short'] += 1
        elif r[0] == 'KILL':
            stats['faults']['kill-before:' + name] += 1
        elif r[0] == 'SIG':
            stats['faults']['signal'] += 1
        elif 'ERRAFTER' in r:
            stats['faults'][name + ':error-after'] += 1
    for i, k, a in res.fired:
        if k == 'full':
            stats['faults']['disk-full-budget'] += 1
        if k == 'killafter':
            stats['faults']['kill-after'] += 1
    if res.allocfail:
        stats['faults']['alloc-failure'] += 1
    stats['status'][('%s %d' % res.status)] += 1


def restart(s, case, res, stats):
    """After a crash: run again over the files that still have their original text; leftovers must not matter."""
    p = case['property']
    w = case['workload']
    listed, left, orig = sim.expected(s, w, w['names'], res)
    again = [n for n in left if sim.canon(w, n) in orig]
    if not again or not res.crashed_by_us:
        return []
    keepfinal = dict(res.final)
    s.populate({}, w.get('links'))
    for n, c in keepfinal.items():
        q = os.path.join(s.root, n)
        if n in w.get('links', {}):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(c)
    r2 = s.run(w, again, (), {'entropy': case.get('entropy2', 1)}, keep=True)
    note(stats, r2)
    ref = s.baseline(w, again)
    v = []
    if not r2.returned:
        v.append((p, 'rerun after a crash ended with %s %d' % r2.status))
    for n in again:
        c = sim.canon(w, n)
        if r2.final.get(c) != ref.final.get(c):
            v.append((p, 'rerun after a crash produced a different text for %s' % c))
    if p == 'C03' and w.get('info') and r2.final.get(w['info']) != ref.final.get(w['info']):
        v.append((p, 'rerun after a crash produced a different mutation info file'))
    stats is not None and stats['faults'].update(['crash-restart'])
    return v


def walk_ids(fi):
    out = []

    def rec(n):
        if isinstance(n, dict):
            for k, x in n.items():
                if k == 'mutationId':
                    out.append(x)
                else:
                    rec(x)
        elif isinstance(n, list):
            for x in n:
                rec(x)
    rec(fi.get('mutationTree', fi))
    return out


def judge_ids(s, w, res):
    p = 'C04'
    if not w.get('info') or not res.returned:
        return []
    b = res.final.get(w['info'])
    try:
        j = json.loads(b.decode())
    except Exception:
        return [] if any(c == sim.HARD for c in sim.cats_of(res)) else [(p, 'mutation info file unreadable')]
    if 'stale' in j:
        return []
    v = []
    nxt = 0
    files = j.get('infoForFiles', [])
    order = [sim.canon(w, n) for n in w['names']]
    pos = -1
    for fi in files:
        ids = walk_ids(fi)
        fn = sim.real(w, os.path.relpath(os.path.normpath(fi['filename']), s.root))
        if not ids:
            v.append((p, 'file %s is described without any mutant' % fn))
            continue
        if sorted(ids) != list(range(nxt, nxt + len(ids))):
            v.append((p, 'ids of %s are not exactly %d..%d: %s' % (fn, nxt, nxt + len(ids) - 1, sorted(ids)[:12])))
        nxt += len(ids)
        if fn not in order:
            v.append((p, 'file %s is described but was not listed' % fn))
        elif order.index(fn) <= pos and not (order.count(fn) > 1 and any(c == sim.HARD for c in sim.cats_of(res))):
            v.append((p, 'id blocks do not follow the order in which files were given: %s' % [os.path.basename(x['filename']) for x in files]))
        else:
            pos = order.index(fn)
        # the tree must reach every node exactly once, so that every mutant is listed once
        tree = fi.get('mutationTree', [])
        seen = collections.Counter()
        for i, nd in enumerate(tree):
            for c in nd.get('children', []):
                seen[c] += 1
                if c <= i or c >= len(tree):
                    v.append((p, 'mutation tree of %s has an invalid child reference' % fn))
        if any(seen[i] != 1 for i in range(1, len(tree))):
            v.append((p, 'mutation tree of %s is not a tree over all its nodes' % fn))
    return v


def outputs(s, res, w):
    o = {k: s.norm(x) for k, x in res.final.items()}
    o['<stderr>'] = s.norm(res.stderr.encode())
    o['<status>'] = repr(res.status).encode()
    return o


def judge_env(s, case, stats):
    w = case['workload']
    first, hs = None, []
    v = []
    for e in case['envs']:
        s.populate(w['files'], w.get('links'))
        if e.get('stale') is not None and w.get('info'):  # what an earlier run left under the name of the info file
            with open(os.path.join(s.root, w['info'].replace('@ROOT@', s.root)), 'w') as f:
                f.write(e['stale'])
        for k, m in (e.get('mtimes') or {}).items():
            try:
                os.utime(os.path.join(s.root, k), (m, m))
            except FileNotFoundError:
                pass
        old = os.umask(e.get('umask', 0o22))
        try:
            res = s.run(w, w['names'], (), e, keep=True)
        finally:
            os.umask(old)
        note(stats, res)
        hs.append(res.hash)
        o = outputs(s, res, w)
        if first is None:
            first = o
        elif o != first:
            d = sorted(k for k in set(o) | set(first) if o.get(k) != first.get(k))
            v.append(('C05', 'outputs differ between two environments: %s' % d))
            break
    if stats is not None:
        stats['faults']['environment-pairs'] += len(case['envs']) - 1
    return v, '|'.join(hs)


TOK = re.compile(rb'[A-Za-z_]\w*|\d+|\s+|.', re.S)
NUM = re.compile(rb'^\d+$')


def shifted(a, b, k):
    """True when b equals a except that some integer tokens x became x+k."""
    if a == b:
        return True
    ta, tb = TOK.findall(a), TOK.findall(b)
    if len(ta) != len(tb):
        return False
    for x, y in zip(ta, tb):
        if x != y and not (NUM.match(x) and NUM.match(y) and int(y) == int(x) + k):
            return False
    return True


def shift_info(fi, k):
    if isinstance(fi, dict):
        return {a: (b + k if a == 'mutationId' else shift_info(b, k)) for a, b in fi.items()}
    if isinstance(fi, list):
        return [shift_info(x, k) for x in fi]
    return fi


def judge_history(s, case, stats):
    w = case['workload']
    p = 'C06'
    v = []
    names = w['names']
    res = s.run(w, names, case.get('faults', ()))
    note(stats, res)
    hs = [res.hash]
    cats = sim.cats_of(res)
    if not res.returned or any(c in (sim.HARD, sim.NEUTRAL, sim.CRASH) for c in cats):
        return v, res.hash
    listed = []
    for n in names:
        if sim.canon(w, n) not in [sim.canon(w, x) for x in listed]:
            listed.append(n)
    # 1. repeats and aliases make no difference
    ref = s.baseline(w, listed)
    for n in listed:
        c = sim.canon(w, n)
        if res.final.get(c) != ref.final.get(c):
            v.append((p, 'listing a file repeatedly or by another path changes the text of %s' % c))
    info = w.get('info')

    def strip(b):
        try:
            j = json.loads(b.decode())
        except Exception:
            return None
        for fi in j.get('infoForFiles', []):
            fi['filename'] = os.path.join(s.root, sim.real(w, os.path.relpath(os.path.normpath(fi['filename']), s.root)))
        return j
    ri = None
    if info:
        ri = strip(res.final.get(info, b''))
        if ri != strip(ref.final.get(info, b'')):
            v.append((p, 'listing a file repeatedly or by another path changes the mutation info'))
    # 2. each file as if alone, up to the offset of its block
    k = 0
    byname = {fi['filename']: fi for fi in (ri or {}).get('infoForFiles', [])}
    for n in listed:
        c = sim.canon(w, n)
        if w['kinds'][c] != 'good':
            continue
        n0 = s.nruns
        alone = s.baseline(w, [n])
        if s.nruns > n0:
            note(stats, alone)
        if info:
            fi = byname.get(os.path.join(s.root, c))
            ai = (strip(alone.final.get(info, b'')) or {}).get('infoForFiles', [])
            if fi is None:
                if ai:
                    v.append((p, 'file %s is described when alone but not in the list' % c))
                continue
            if not ai:
                v.append((p, 'file %s is described in the list but not when alone' % c))
                continue
            k = min(walk_ids(fi))
            if shift_info(ai[0], k) != fi:
                v.append((p, 'mutation info of %s is not that of a run on its own shifted by %d' % (c, k)))
            if not shifted(alone.final[c], res.final[c], k):
                v.append((p, 'text of %s is not that of a run on its own with ids shifted by %d' % (c, k)))
    # 3. histories with the same set of predecessors leave the same text
    if len(listed) > 2 and not v:
        perm = listed[:-1][::-1] + listed[-1:]
        r2 = s.baseline(w, perm)
        c = sim.canon(w, listed[-1])
        if r2.final.get(c) != ref.final.get(c):
            v.append((p, 'text of %s depends on the order of the files processed before it' % c))
    return v, '|'.join(hs)


# ------------------------------------------------------------------ generation

def gen_cases(prop, seed, i):
    r = vlib.rng(prop, seed, i)
    out = []
    if prop in ('C01', 'C02', 'C03'):
        w = sim.make_workload(r, '%s-%d' % (prop, i), dup=r.random() < 0.2)
        w['variant'] = r.choice(['dbg', 'dbg', 'rel'])
        base = get_sim().run(w, w['names'])
        out.append({'property': prop, 'workload': w, 'faults': [], 'env': {}})
        mix = {'C01': ['hard', 'hard', 'crash', 'crash', 'mixed', 'benign'], 'C02': ['hard', 'hard', 'benign', 'benign', 'hard', 'mixed'], 'C03': ['hard', 'hard', 'hard', 'benign', 'crash', 'mixed']}[prop]
        for q in range(5):
            prof = r.choice(mix)
            f, c = sim.draw_faults(r, w, base, prof)
            env = {'entropy': r.randrange(1, 1 << 30)} if r.random() < 0.5 else {}
            case = {'property': prop, 'workload': w, 'faults': f, 'env': env, 'profile': prof}
            if prop in ('C01', 'C03') and any(x[1].startswith('kill') for x in f):
                case['restart'] = True
                case['entropy2'] = env.get('entropy', 1) if r.random() < 0.5 else r.randrange(1, 1 << 30)
            out.append(case)
        if prop == 'C01' and r.random() < 0.3:
            out.append({'property': prop, 'workload': w, 'faults': [], 'env': {'allocfail': int(10 ** r.uniform(1, 5))}})
    elif prop == 'C04':
        w = sim.make_workload(r, '%s-%d' % (prop, i), dup=r.random() < 0.3, alias=True, maxfiles=6, big=0.2)
        w['info'] = 'info.json'
        base = get_sim().run(w, w['names'])
        out.append({'property': prop, 'workload': w, 'faults': [], 'env': {}})
        for q in range(2):
            f, c = sim.draw_faults(r, w, base, 'hard')
            out.append({'property': prop, 'workload': w, 'faults': f, 'env': {}})
    elif prop == 'C05':
        w = sim.make_workload(r, '%s-%d' % (prop, i), dup=r.random() < 0.2, big=0.5)
        if r.random() < 0.15:
            f = [n for n, k in w['kinds'].items() if k == 'good']
            for n in f:
                if n.endswith('.cc'):
                    w['files'][n] = '#include <%s>\n' % r.choice(['map', 'vector', 'string', 'functional']) + w['files'][n]
                    w['flags'] = ['-resource-dir=' + vlib.RESDIR]
        envs = [{'layout': 1, 'entropy': 1, 'pid': 4242, 'clock': 1}]
        for q in range(3):
            e = {'layout': r.randrange(2, 1 << 30), 'entropy': r.randrange(1 << 30), 'pid': r.randrange(2, 4000000), 'clock': r.randrange(1, 20000),
                 'umask': r.choice([0o22, 0o77, 0o2]), 'mtimes': {k: r.randrange(1000000000, 1900000000) for k in w['files']},
                 'extra': ['PAD=' + 'x' * r.randrange(2000), 'LANG=C', 'HOME=/nonexistent', 'TMPDIR=/nonexistent']}
            if r.random() < 0.4:
                e['stale'] = r.choice(['', '{}', '{"infoForFiles": []}', '[' + '1, ' * r.choice([10, 3000, 30000]) + '1]\n'])
            envs.append(e)
        out.append({'property': prop, 'workload': w, 'envs': envs})
    elif prop == 'C06':
        w = sim.make_workload(r, '%s-%d' % (prop, i), dup=r.random() < 0.75, alias=True, maxfiles=5, big=0.1)
        w['info'] = 'info.json'
        out.append({'property': prop, 'workload': w, 'faults': []})
        base = get_sim().run(w, w['names'])
        f, c = sim.draw_faults(r, w, base, 'benign')
        out.append({'property': prop, 'workload': w, 'faults': f})
    return out


def new_stats():
    return {'runs': 0, 'events': 0, 'crash_points': 0, 'hashes': set(), 'faults': collections.Counter(), 'status': collections.Counter(), 'cases': 0, 'kinds': collections.Counter(), 'sample': None}


def task(a):
    prop, seed, i = a
    st = new_stats()
    viol = []
    try:
        for case in gen_cases(prop, seed, i):
            st['cases'] += 1
            st['kinds'].update(case['workload']['kinds'].values())
            v, hsh = run_case(case, st)
            if i < 3 and st['sample'] is None and case.get('faults'):
                st['sample'] = {'seed': '%s|%s|%d' % (prop, seed, i), 'files': case['workload']['kinds'], 'list': case['workload']['names'], 'faults': case.get('faults'), 'result': 'held' if not v else v[0][1]}
            for p, m in v:
                if p == prop:
                    viol.append((i, case, m, hsh))
                    break
            if viol:
                break
    except CheckError as e:
        return i, st, viol, str(e)
    except Exception as e:
        import traceback
        return i, st, viol, traceback.format_exc()[-1500:]
    return i, st, viol, None


# ------------------------------------------------------------------ minimisation and replay

def still(case, cls):
    try:
        v, hsh = run_case(case)
    except CheckError:
        return False
    return any(p == case['property'] and kind_of(m) == cls for p, m in v)


def selector(events, idx):
    """(name, path-without-random, occurrence) of event idx, so a fault can be re-located in a smaller workload."""
    def key(e):
        _, name, path, _, _ = sim.parse_event(e)
        return name, re.sub(r'\.temp-stream-\w+', '.temp', path)
    k = key(events[idx])
    return k, sum(1 for e in events[:idx] if key(e) == k)


def relocate(s, w, sels, env):
    faults = []
    for (k, occ), kind, arg in sels:
        ev = s.run(w, w['names'], faults, env).events
        c = 0
        hit = None
        for e in ev:
            i, name, path, _, _ = sim.parse_event(e)
            if (name, re.sub(r'\.temp-stream-\w+', '.temp', path)) == k:
                if c == occ:
                    hit = i
                    break
                c += 1
        if hit is None:
            return None
        faults.append([hit, kind, arg])
    return faults


def minimise(case, cls, deadline):
    s = get_sim()
    best = case

    def attempt(c):
        nonlocal best
        if time.time() > deadline:
            return False
        c['workload']['id'] = 'min%d' % time.time_ns()
        s.cache.clear()
        if still(c, cls):
            best = c
            return True
        return False
    copy = lambda c: json.loads(json.dumps(c))
    # faults
    changed = True
    while changed and best.get('faults'):
        changed = False
        for k in range(len(best['faults'])):
            c = copy(best)
            del c['faults'][k]
            if attempt(c):
                changed = True
                break
    # environments
    if 'envs' in best and len(best['envs']) > 2:
        for k in range(1, len(best['envs'])):
            c = copy(best)
            c['envs'] = [c['envs'][0], c['envs'][k]]
            if attempt(c):
                break
    # files
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for k in range(len(best['workload']['names'])):
            if len(best['workload']['names']) <= 1:
                break
            c = copy(best)
            w = c['workload']
            if best.get('faults'):
                ev = s.run(best['workload'], best['workload']['names'], best['faults'], best.get('env')).events
                try:
                    sels = [(selector(ev, f[0]), f[1], f[2]) for f in best['faults']]
                except IndexError:
                    break
            n = w['names'].pop(k)
            if not any(sim.canon(w, x) == sim.canon(w, n) for x in w['names']):
                w['files'].pop(sim.canon(w, n), None)
                w['kinds'].pop(sim.canon(w, n), None)
            if w.get('db'):
                continue
            if best.get('faults'):
                f = relocate(s, w, sels, best.get('env'))
                if f is None:
                    continue
                c['faults'] = f
            if attempt(c):
                changed = True
                break
    # options
    for opt in ('track', 'noopt'):
        if best['workload'].get(opt):
            c = copy(best)
            c['workload'][opt] = False
            attempt(c)
    # functions: drop trailing top-level functions of good files
    for n in list(best['workload']['files']):
        while time.time() < deadline:
            t = best['workload']['files'][n]
            m = [x.start() for x in re.finditer(r'^[^\n ].*\) \{$', t, re.M)]
            if len(m) < 2 or best['workload']['kinds'].get(n) != 'good':
                break
            c = copy(best)
            c['workload']['files'][n] = t[:m[-1]]
            if c.get('faults'):
                ev = s.run(best['workload'], best['workload']['names'], best['faults'], best.get('env')).events
                try:
                    sels = [(selector(ev, f[0]), f[1], f[2]) for f in best['faults']]
                except IndexError:
                    break
                f = relocate(s, c['workload'], sels, best.get('env'))
                if f is None:
                    break
                c['faults'] = f
            if not attempt(c):
                break
    s.cache.clear()
    return best


def setup(prop):
    global CFG
    dsim, env = vlib.build_toolsim()
    d = {'dbg': vlib.build_dredd('dbg')}
    if prop in ('C01', 'C02', 'C03'):
        d['rel'] = vlib.build_dredd('rel')
    else:
        d['rel'] = d['dbg']
    CFG = {'dsim': dsim, 'simenv': env, 'dredd': d}


def replay(path):
    d = json.load(open(path))
    setup(d['case']['property'])
    v, hsh = run_case(d['case'])
    for p, m in v:
        if p == d['case']['property'] and kind_of(m) == d['class']:
            print('REPRODUCED property=%s %s' % (p, m))
            print('trace hash %s (recorded %s)' % (hsh, d['hash']))
            return 1
    print('NOT REPRODUCED (%s)' % (v,))
    return 0


def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def main():
    if sys.argv[1] == '--replay':
        rc = replay(sys.argv[2])
        finish()
        sys.exit(rc)
    prop = sys.argv[1]
    seed, tier = vlib.seed_tier()
    t0 = time.time()
    setup(prop)
    tb = time.time()
    ntasks, cap = BUDGET[prop][tier]
    tot = new_stats()
    samples, viol, errs, done = [], [], [], 0
    print('seed %d tier %s property %s' % (seed, tier, prop), flush=True)
    pool = Pool(vlib.NCPU, init_worker)
    pids = [w.pid for w in pool._pool]
    try:
        for i, st, v, err in pool.imap_unordered(task, ((prop, seed, i) for i in range(ntasks)), chunksize=1):
            done += 1
            for k in ('runs', 'events', 'crash_points', 'cases'):
                tot[k] += st[k]
            tot['hashes'] |= st['hashes']
            tot['faults'].update(st['faults'])
            tot['status'].update(st['status'])
            tot['kinds'].update(st['kinds'])
            if st['sample'] and len(samples) < 4:
                samples.append(st['sample'])
            if err:
                errs.append((i, err))
            viol += v
            if viol and (len(viol) >= 4 or time.time() - tb > cap) or time.time() - tb > cap or len(errs) > 20:
                break
    finally:
        pool.terminate()
        pool.join()
        subprocess.run(['pkill', '-P', str(os.getpid()), '-x', 'dsim'], stderr=subprocess.DEVNULL)
        for p in pids:
            import shutil
            shutil.rmtree('/dev/shm/dreddsim-%08d' % p, ignore_errors=True)
    wall_search = time.time() - tb
    if errs and not viol:
        print('check error in task %d: %s' % errs[0], flush=True)
        finish()
        sys.exit(2)
    rc = 0
    reported = []
    if viol:
        # prefer one report per violation class, lowest task index first
        viol.sort(key=lambda x: x[0])
        seen = set()
        for i, case, m, hsh in viol:
            cls = kind_of(m)
            if cls in seen:
                continue
            seen.add(cls)
            # gate 1: the same case again gives the same violation (and, unless determinism itself is at stake, the same trace)
            s = get_sim()
            s.cache.clear()
            v2, h2 = run_case(case)
            if not any(p == prop and kind_of(x) == cls for p, x in v2):
                errs.append((i, 'violation did not repeat: ' + m))
                continue
            small = minimise(case, cls, time.time() + 60)
            v3, h3 = run_case(small)
            msg = [x for p, x in v3 if p == prop and kind_of(x) == cls][0]
            path = vlib.replay_path(prop, 'seed%d-task%d' % (seed, i))
            json.dump({'case': small, 'class': cls, 'message': msg, 'hash': h3, 'seed': seed, 'task': i, 'trace_repeatable': h2 == hsh}, open(path, 'w'), indent=1)
            # gate 2: a fresh process reproduces it from the file
            r = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 1 or 'REPRODUCED' not in r.stdout:
                errs.append((i, 'replay did not reproduce: ' + r.stdout[-500:]))
                continue
            print('violation: ' + msg)
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            reported.append(msg)
            rc = 1
            if len(reported) >= 2:
                break
    runtime = None
    if prop == 'C04' and rc == 0:
        # run-time half: selecting and tracking ids in programs built from several instrumented files
        sys.path.insert(0, os.path.join(vlib.VERIF, 'rtsim'))
        import check_rt
        check_rt.setup()
        rtot, rviol, rerrs, rdone, rwall = check_rt.search('C04', seed, tier)
        rrep = check_rt.report('C04', seed, rviol, rerrs) if rviol else []
        reported += rrep
        rc = 1 if rrep else 0
        errs += rerrs
        runtime = check_rt.coverage(rtot, rdone, check_rt.BUDGET['C04'][tier][0], rwall)
        check_rt.finish()
    wall = time.time() - t0
    cov = {
        'evaluations': tot['runs'], 'distinct_nontrivial': len(tot['hashes']),
        'rule': 'each case is a generated set of source files, options, list order and a seeded fault plan/environment; one evaluation is one simulated dredd execution; distinct = distinct hash of the whole system-call/fault/state trace of the execution',
        'samples': samples or [{'note': 'no faulted sample'}],
        'cases': tot['cases'], 'tasks_done': done, 'tasks_planned': ntasks,
        'simulated_runs_per_hour': int(tot['runs'] / max(wall_search, 0.1) * 3600), 'seeds_per_hour': int(done / max(wall_search, 0.1) * 3600),
        'simulated_time': 'logical: %d decision points (system calls on user files); dredd has no timers' % tot['events'],
        'crash_points_inspected': tot['crash_points'], 'faults_injected': dict(tot['faults']), 'exit_statuses': dict(tot['status']), 'listed_file_kinds': dict(tot['kinds']),
        'real_components': ['dredd executable (main.cc, libdredd) built from /repo', 'clang/LLVM 17 libraries', 'protobuf', 'kernel file system (tmpfs scratch)'],
        'stub_components': ['getrandom, getpid, clocks, malloc layout', 'results of faulted system calls'],
    }
    if runtime:
        cov['run_time_half'] = runtime
        for k in ('evaluations', 'distinct_nontrivial', 'cases'):
            cov[k] += runtime[k]
    vlib.write_evidence(prop, LEVEL[prop], cov, wall, len(reported), [
        'process-crash model: a kill preserves what the kernel has accepted (no power loss)', 'system headers and the compiler resource directory are healthy', 'sampling: a clean batch is evidence, not proof'])
    print('%s: %d simulated runs (%d distinct traces), %d fault injections, %.0fs, %s' % (prop, tot['runs'], len(tot['hashes']), sum(tot['faults'].values()), wall, 'VIOLATED' if rc else 'held'))
    finish()
    if errs and rc == 0:
        print('check error: %s' % (errs[0],))
        sys.exit(2)
    sys.exit(rc)


def finish():
    if S is not None:
        S.close()
    vlib.cleanup_scratch()


if __name__ == '__main__':
    try:
        main()
    except CheckError as e:
        print('check error: %s' % e)
        finish()
        sys.exit(2)
