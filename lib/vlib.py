"""Shared machinery: building dredd from /repo's working tree, seeds, evidence, violations."""
import fcntl, hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DREDD_SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCPU = min(8, os.cpu_count() or 1)
CLANG = '/usr/bin/clang-17'
CLANGXX = '/usr/bin/clang++-17'
RESDIR = '/usr/lib/llvm-17/lib/clang/17'


class CheckError(Exception):
    """The check itself could not do its job (neither 'held' nor 'violated')."""


def log(*a):
    print('#', *a, file=sys.stderr, flush=True)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


TREE = os.path.join(BUILD, 'tree')


def sync_tree():
    """Mirrors REPO's sources by content, so that a changed file is rebuilt whatever its timestamp says."""
    with Lock('lock.tree'):
        want = {}
        for top in ('CMakeLists.txt', 'src', 'third_party', 'cmake'):
            a = os.path.join(REPO, top)
            if os.path.isfile(a):
                want[top] = a
            for d, ds, fs in os.walk(a):
                for f in fs:
                    x = os.path.join(d, f)
                    want[os.path.relpath(x, REPO)] = x
        for d, ds, fs in os.walk(TREE):
            for f in fs:
                x = os.path.join(d, f)
                if os.path.relpath(x, TREE) not in want:
                    os.unlink(x)
        for rel, a in want.items():
            t = os.path.join(TREE, rel)
            data = open(a, 'rb').read()
            try:
                if open(t, 'rb').read() == data:
                    continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(t), exist_ok=True)
            with open(t, 'wb') as f:
                f.write(data)


def build_dredd(variant='dbg'):
    """(Re)builds dredd from REPO's current tree; variant dbg: assertions on, rel: assertions off."""
    b = os.path.join(BUILD, variant)
    sync_tree()
    with Lock('lock.' + variant):
        flags = '-O0 -g0' if variant == 'dbg' else '-O0 -g0 -DNDEBUG'
        if os.path.exists(os.path.join(b, 'CMakeCache.txt')):
            cache = open(os.path.join(b, 'CMakeCache.txt')).read()
            if 'CMAKE_HOME_DIRECTORY:INTERNAL=%s\n' % TREE not in cache:
                shutil.rmtree(b)
        if not os.path.exists(os.path.join(b, 'build.ninja')):
            shutil.rmtree(b, ignore_errors=True)
            r = subprocess.run(['cmake', '-S', TREE, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug',
                                '-DCMAKE_C_COMPILER=' + CLANG, '-DCMAKE_CXX_COMPILER=' + CLANGXX,
                                '-DDREDD_CLANG_LLVM_DIR=/usr/lib/llvm-17',
                                '-DCMAKE_PROJECT_dredd_INCLUDE=/opt/vp/system-deps.cmake',
                                '-DDREDD_WARNINGS_AS_ERRORS=OFF', '-DDREDD_WARNINGS_EXTRA=OFF',
                                '-DDREDD_BUILD_TESTING=OFF', '-DCMAKE_CXX_FLAGS_DEBUG=' + flags,
                                '-DCMAKE_C_FLAGS_DEBUG=' + flags], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=clean_env())
            if r.returncode:
                raise CheckError('cmake failed: ' + r.stdout.decode(errors='replace')[-2000:])
        r = subprocess.run(['ninja', '-C', b, 'dredd'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env())
        if r.returncode:
            raise CheckError('building dredd failed: ' + r.stdout.decode(errors='replace')[-3000:])
    return os.path.join(b, 'src', 'dredd', 'dredd')


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'DREDD_ENABLED_MUTATION', 'DREDD_MUTANT_TRACKING_FILE')}
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    return e


def build_native(out, cmd, deps):
    """Builds one of the simulator's own binaries when its sources changed."""
    h = hashlib.sha256(' '.join(cmd).encode())
    for d in deps:
        h.update(open(d, 'rb').read())
    stamp = out + '.stamp'
    with Lock('lock.' + os.path.basename(out)):
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return out
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env())
        if r.returncode:
            raise CheckError('building %s failed: %s' % (out, r.stdout.decode(errors='replace')[-3000:]))
        open(stamp, 'w').write(h.hexdigest())
    return out


def build_toolsim():
    t = os.path.join(VERIF, 'toolsim')
    dsim = build_native(os.path.join(BUILD, 'dsim'), ['g++', '-O2', '-o', os.path.join(BUILD, 'dsim'), t + '/dsim.cc'], [t + '/dsim.cc'])
    env = build_native(os.path.join(BUILD, 'simenv.so'), ['gcc', '-O2', '-w', '-fPIC', '-shared', '-o', os.path.join(BUILD, 'simenv.so'), t + '/simenv.c'], [t + '/simenv.c'])
    return dsim, env


def rng(*parts):
    return random.Random('|'.join(str(p) for p in parts))


def seed_tier():
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    return seed, ('thorough' if tier == 'thorough' else 'quick')


_scratch = None


def scratch_base():
    """A private scratch directory with a fixed-length name (path lengths are part of the simulated state)."""
    global _scratch
    if _scratch is None or _scratch[1] != os.getpid():
        top = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        # Same-length names whatever the top directory and pid.
        d = os.path.join(top, ('dreddsim-%08d' % os.getpid()) + ('' if top == '/dev/shm' else 'xxxxx'))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _scratch = (d, os.getpid())
    return _scratch[0]


def cleanup_scratch():
    global _scratch
    if _scratch and _scratch[1] == os.getpid():
        shutil.rmtree(_scratch[0], ignore_errors=True)
        _scratch = None


def write_evidence(prop, level, coverage, wall, violations, assumptions):
    seed, tier = seed_tier()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
         'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)


def replay_path(prop, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (prop, tag))


def build_rtsim():
    t = os.path.join(VERIF, 'rtsim')
    out = build_native(os.path.join(BUILD, 'rtsim'), ['g++', '-O2', '-std=c++17', '-w', '-fno-builtin-malloc', '-rdynamic', '-o', os.path.join(BUILD, 'rtsim'),
                                                      t + '/rtsim.cc', '-ldl', '-lpthread'], [t + '/rtsim.cc', t + '/sim.h'])
    sys.path.insert(0, t)
    import rt
    rt.pch()
    return out
