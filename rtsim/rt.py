"""Building instrumented programs and running them in the run-time simulator."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from vlib import CheckError, VERIF, BUILD, CLANG, CLANGXX, RESDIR

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-O0', '-fwrapv', '-fPIC', '-fsanitize=thread', '-fsanitize-coverage=bb,trace-pc', '-w', '-fno-color-diagnostics', '-fno-caret-diagnostics', '-ferror-limit=3']
PCH_SRC = ('#include <cerrno>\n#include <cinttypes>\n#include <cstddef>\n#include <cstdlib>\n#include <functional>\n#include <string>\n'
           '#include <fstream>\n#include <sstream>\n#include <atomic>\n#include <type_traits>\n#include <exception>\n#include <stdexcept>\n#include <vector>\n#include <map>\n'
           '#include <algorithm>\n#include <array>\n#include <memory>\n#include <numeric>\n#include <optional>\n#include <tuple>\n#include <utility>\n#include <variant>\n')


MARK20 = '// -std=gnu++20\n'  # first line of C++ files that are to be built as C++20


def pch():
    """Precompiled library headers (they are what most of the compile time goes to); (re)built when missing."""
    d = os.path.join(BUILD, 'pch')
    with vlib.Lock('lock.pch'):
        for name, std in (('pre.h', []), ('pre20.h', ['-std=gnu++20'])):
            src = os.path.join(d, name)
            out = src + '.pch'
            if os.path.exists(out) and os.path.exists(src) and open(src).read() == PCH_SRC:
                continue
            os.makedirs(d, exist_ok=True)
            if os.path.exists(out):
                os.unlink(out)
            open(src, 'w').write(PCH_SRC)
            r = subprocess.run([CLANGXX] + FLAGS + std + ['-x', 'c++-header', name, '-o', out + '.tmp'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=vlib.clean_env())
            if r.returncode:
                raise CheckError('precompiled header: ' + r.stdout.decode(errors='replace')[-2000:])
            os.replace(out + '.tmp', out)


def is20(path):
    with open(path, 'rb') as f:
        return MARK20.strip().encode() in f.read()


class BuildFail(Exception):
    pass


def compile_so(d, names, use_pch=True, extra=()):
    """Compiles the given files in directory d and links prog.so; raises BuildFail with the compiler's message."""
    objs = []
    for n in names:
        if n.endswith('.c'):
            cmd = [CLANG, '-fexceptions'] + FLAGS
        else:
            cmd = [CLANGXX] + FLAGS
            i20 = is20(os.path.join(d, n))
            if i20:
                cmd += ['-std=gnu++20']
            if use_pch:
                cmd += ['-include-pch', os.path.join(BUILD, 'pch', 'pre20.h.pch' if i20 else 'pre.h.pch')]
        r = subprocess.run(cmd + list(extra) + ['-c', n, '-o', n + '.o'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode:
            raise BuildFail(n + ': ' + r.stdout.decode(errors='replace')[:1500])
        objs.append(n + '.o')
    r = subprocess.run([CLANGXX, '-shared', '-o', 'prog.so'] + objs, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if r.returncode:
        raise BuildFail('link: ' + r.stdout.decode(errors='replace')[:1500])
    return os.path.join(d, 'prog.so')


ENV = vlib.clean_env()


def write_files(d, files):
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    shutil.copy(os.path.join(HERE, 'sim.h'), os.path.join(d, 'sim.h'))


def run_dredd(dredd, d, names, opts, info='info.json'):
    how = ['--', '-resource-dir=' + RESDIR, '-w']
    if any(n.endswith('.cc') and is20(os.path.join(d, n)) for n in names):
        # Files need different flags, so they come from a compilation database.
        ents = [{'directory': d, 'file': n, 'arguments': (['clang++', '-std=gnu++20'] if n.endswith('.cc') else ['clang']) + ['-resource-dir=' + RESDIR, '-w', '-c', n]} for n in names]
        with open(os.path.join(d, 'compile_commands.json'), 'w') as f:
            json.dump(ents, f)
        how = ['-p', '.']
    r = subprocess.run([dredd] + opts + ['--mutation-info-file', info] + names + how, cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=120)
    if r.returncode:
        raise BuildFail('dredd exit %d: %s' % (r.returncode, r.stdout.decode(errors='replace')[-1500:]))
    with open(os.path.join(d, info), 'rb') as f:
        raw = f.read()
    return json.loads(raw), raw


class Result:
    pass


class Sim:
    """A job server process; every job is one simulated execution."""

    def __init__(self):
        self.p = subprocess.Popen([os.path.join(BUILD, 'rtsim')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
        self.runs = 0

    def run(self, job):
        lines = ['job']
        for k, v in job.items():
            if k == 'so':
                for p, x in enumerate(v):
                    lines.append('so %d %s' % (p, x))
                lines.append('nproc %d' % len(v))
            elif k == 'sel':
                for p, x in enumerate(v):
                    if x is not None:
                        lines.append('sel %d %s' % (p, x))
            elif k in ('crash', 'plan', 'sw'):
                for x in v:
                    lines.append('%s %s' % (k, ' '.join(str(y) for y in x)))
            elif k == 'ref':
                for x in v:
                    lines.append('ref %d' % x)
            elif k == 'stall':
                lines.append('stall %d %d %d' % tuple(v))
            elif k == 'explicit':
                if v:
                    lines.append('explicit')
            else:
                lines.append('%s %s' % (k, v))
        lines.append('go')
        try:
            self.p.stdin.write('\n'.join(lines) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            raise CheckError('simulator died')
        r = Result()
        r.ev, r.race, r.fired, r.sw, r.cov, r.proc = [], [], [], [], [], []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise CheckError('simulator died: ' + repr(lines)[:500])
            f = l.split()
            if f[0] == 'e':
                r.ev.append((int(f[1]), int(f[2]), f[3], int(f[4]), int(f[5]), int(f[6])))
            elif f[0] == 'race':
                r.race.append(f[1:])
            elif f[0] == 'fired':
                r.fired.append(tuple(int(x) for x in f[1:]))
            elif f[0] == 'sw':
                r.sw.append((int(f[1]), int(f[2])))
            elif f[0] == 'cov':
                r.cov.append(tuple(int(x) for x in f[1:]))
            elif f[0] == 'proc':
                r.proc.append([int(x) for x in f[1:]])
            elif f[0] == 'end':
                r.hash, r.steps, r.nwait, r.waitstall, r.nmutex, r.strtok_race, r.strtok_clobber, r.timeout, r.nswitch, r.npreempt = f[1], *[int(x) for x in f[2:11]]
                r.msg = ' '.join(f[11:])
                break
        self.runs += 1
        if r.timeout or r.msg not in ('ok',):
            r.bad = r.msg if r.msg != 'ok' else 'timeout'
        else:
            r.bad = None
        return r

    def close(self):
        try:
            self.p.stdin.write('quit\n')
            self.p.stdin.close()
        except Exception:
            pass
        self.p.wait()
