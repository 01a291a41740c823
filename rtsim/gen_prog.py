"""Generates concurrent multi-file C/C++ programs for the run-time simulator.

exact: every sub-expression has the type its text shows (no implicit arithmetic conversions), so that a program edited as the
       mutation information says is an exact reference for every mutant. Threads share state only through driver operations.
broad: many more language features; the reference is the original program itself.
"""
import random
import re

ITYPES = ['int', 'unsigned', 'long', 'unsigned long']
FTYPES = ['double', 'float']
SUF = {'int': '', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul'}
NZ = {'int': 'nz_i', 'unsigned': 'nz_u', 'long': 'nz_l', 'unsigned long': 'nz_ul'}
ARR = {'int': 'i', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul', 'double': 'd', 'float': 'f'}
ABB = {**ARR, 'bool': 'b'}

HEADER = '''#ifndef PROG_H
#define PROG_H
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <stddef.h>
#ifndef __cplusplus
#include <stdbool.h>
#endif
static inline int nz_i(int x) { return (x & 0xff) | 1; }
static inline unsigned nz_u(unsigned x) { return (x & 0xffu) | 1u; }
static inline long nz_l(long x) { return (x & 0xffl) | 1l; }
static inline unsigned long nz_ul(unsigned long x) { return (x & 0xfful) | 1ul; }
#define ARRFN(s, T) static inline T get_##s(T *a, int i) { return a[(unsigned)i & 3u]; } static inline T set_##s(T *a, int i, T v) { a[(unsigned)i & 3u] = v; return v; }
ARRFN(i, int) ARRFN(u, unsigned) ARRFN(l, long) ARRFN(ul, unsigned long) ARRFN(d, double) ARRFN(f, float)
/* conversions: defined for every value */
static inline double cv_fin(double x) { return x != x ? 0.0 : x > 1e9 ? 1e9 : x < -1e9 ? -1e9 : x; }
#define CV1(a, A, b, B) static inline B cv_##a##_##b(A x) { return (B)x; }
#define CVF(a, A, b, B) static inline B cv_##a##_##b(A x) { return (B)(long)cv_fin((double)x); }
#define CVALL(a, A) CV1(a, A, i, int) CV1(a, A, u, unsigned) CV1(a, A, l, long) CV1(a, A, ul, unsigned long) CV1(a, A, d, double) CV1(a, A, f, float)
CVALL(i, int) CVALL(u, unsigned) CVALL(l, long) CVALL(ul, unsigned long) CVALL(b, bool)
CVF(d, double, i, int) CVF(d, double, u, unsigned) CVF(d, double, l, long) CVF(d, double, ul, unsigned long) CV1(d, double, f, float) CV1(d, double, d, double)
CVF(f, float, i, int) CVF(f, float, u, unsigned) CVF(f, float, l, long) CVF(f, float, ul, unsigned long) CV1(f, float, f, float) CV1(f, float, d, double)
#ifdef __cplusplus
#define CVB(a, A) static inline bool cv_##a##_b(A x) { return x != 0; }
CVB(i, int) CVB(u, unsigned) CVB(l, long) CVB(ul, unsigned long) CVB(d, double) CVB(f, float)
#endif
struct rec { int fi; unsigned fu; long fl; unsigned long ful; double fd; float ff; };
#ifdef __cplusplus
extern "C" {
#endif
%s
#ifdef __cplusplus
}
#endif
#endif
'''


class Func:
    def __init__(self, name, file, ret, params, idx):
        self.name, self.file, self.ret, self.params, self.idx = name, file, ret, params, idx


class Gen:
    def __init__(self, rng, broad=False, nfiles=None, sizes=None, langs=None, nthreads=None, features=None):
        self.r = rng
        self.broad = broad
        self.nfiles = nfiles or rng.choice([1, 1, 2, 2, 3])
        self.langs = langs or [rng.choice(['c', 'cc', 'cc']) for _ in range(self.nfiles)]
        self.sizes = sizes or [rng.choice(['tiny', 'small', 'small', 'medium', 'large']) for _ in range(self.nfiles)]
        self.nthreads = nthreads or rng.choice([1, 2, 2, 3, 4])
        self.features = features
        self.leave = rng.choice([None, None, 'sim_stop', 'sim_throw', 'sim_throw'])  # how operands may fail to return
        self.uid = 0
        self.tag = 0
        self.funcs = []
        self.fileparts = [[] for _ in range(self.nfiles)]

    # ------------------------------------------------------------ helpers
    def new(self, p='v'):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def newtag(self):
        self.tag += 1
        return self.tag

    def lit(self, t):
        r = self.r
        if t == 'bool':
            return r.choice(['true', 'false'])
        if t in FTYPES:
            s = r.choice(['0.0', '1.0', '2.5', '0.25', '3.0', '10.75', '1e3'])
            return s + ('f' if t == 'float' else '')
        v = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 10, 13, 31, 64, 100, 255])
        s = str(v)
        if r.random() < 0.1:
            s = hex(v)
        return s + SUF[t]

    def ty(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return 'int'
        if x < 0.8:
            return r.choice(ITYPES)
        return r.choice(FTYPES)

    # ------------------------------------------------------------ expressions: returns (text, mentioned variables, has side effects)
    def leaf(self, t):
        r = self.r
        c = [v for v in self.vars if v[1] == t]
        if c and r.random() < 0.75:
            v = r.choice(c)
            return v[0], {v[2]}, False
        return self.lit(t), set(), False

    def paren(self, e):
        return '(' + e + ')' if self.r.random() < 0.5 or not e.replace('.', '').isalnum() else e

    def expr(self, t, d, se=True):
        """An expression of exactly type t. se: side effects allowed."""
        r = self.r
        if d <= 0:
            return self.leaf(t)
        if t == 'bool':
            return self.boolean(d, se)
        opts = ['bin'] * 8 + ['leaf'] * 2 + ['un'] * 3 + ['cast'] * 2 + ['cond'] + ['paren']
        if t == 'int' and self.lang == 'c':
            opts += ['cmp'] * 2 + ['log'] * 2 + ['lnot']
        if se:
            opts += ['call'] * 2 + ['incdec'] * 2 + ['asg', 'asgop', 'comma', 'env', 'cell', 'arr']
        k = r.choice(opts)
        if k == 'leaf':
            return self.leaf(t)
        if k == 'paren':
            e, m, s = self.expr(t, d - 1, se)
            return '(' + e + ')', m, s
        if k == 'bin':
            return self.binary(t, d, se)
        if k == 'un':
            ops = ['-', '+'] if t in FTYPES else ['-', '~', '-', '~', '+']
            op = r.choice(ops)
            e, m, s = self.expr(t, d - 1, se)
            return op + '(' + e + ')', m, s
        if k == 'cast':
            u = self.ty() if not (self.lang == 'cc' and r.random() < 0.2) else 'bool'
            e, m, s = self.expr(u, d - 1, se)
            return self.conv(e, u, t), m, s
        if k == 'cond':
            c, mc, sc = self.cond(d - 1, se)
            a, ma, sa = self.expr(t, d - 1, se)
            b, mb, sb = self.expr(t, d - 1, se)
            return '((%s) ? (%s) : (%s))' % (c, a, b), mc | ma | mb, sc or sa or sb
        if k == 'cmp':
            return self.compare(d, se)
        if k == 'log':
            return self.logical(d, se)
        if k == 'lnot':
            e, m, s = self.expr('int', d - 1, se)
            return '!(%s)' % e, m, s
        if k == 'call':
            return self.call(t, d)
        if k == 'incdec':
            c = [v for v in self.vars if v[1] == t and v[3]]
            if not c:
                return self.leaf(t)
            v = r.choice(c)
            self.locked.add(v[2])
            return r.choice(['++%s', '--%s', '%s++', '%s--']) % self.paren_lv(v[0]), {v[2]}, True
        if k in ('asg', 'asgop'):
            c = [v for v in self.vars if v[1] == t and v[3]]
            if not c:
                return self.leaf(t)
            v = r.choice(c)
            e, m, s = self.without(v[2], lambda: self.expr(t, d - 1, False))
            op = '='
            if k == 'asgop':
                op = r.choice(['+=', '-=', '*='] if t in FTYPES else ['+=', '-=', '*=', '&=', '|=', '^='])
            return '(%s %s %s)' % (v[0], op, e), m | {v[2]}, True
        if k == 'comma':
            a, ma, sa = self.expr(self.ty(), d - 1, True)
            b, mb, sb = self.expr(t, d - 1, True)
            return '((void)(%s), %s)' % (a, b), ma | mb, sa or sb
        if k == 'env':
            f = r.choice(['sim_env'] * 3 + [self.leave]) if self.leave else 'sim_env'
            return self.conv('%s(%d)' % (f, r.randrange(8)), 'long', t), set(), True
        if k == 'cell':
            e, m, s = self.expr('long', d - 2, False)
            return self.conv('sim_cell_add(%d, %s)' % (r.randrange(6), e), 'long', t), m, True
        if k == 'arr':
            c = [a for a in self.arrs if a[1] == t]
            if not c:
                return self.leaf(t)
            a = r.choice(c)
            i, m, s = self.expr('int', d - 2, False)
            if r.random() < 0.5:
                return 'get_%s(%s, %s)' % (ARR[t], a[0], i), m | {a[0]}, True
            e, m2, s2 = self.expr(t, d - 2, False)
            return 'set_%s(%s, %s, %s)' % (ARR[t], a[0], i, e), m | m2 | {a[0]}, True
        raise AssertionError(k)

    def conv(self, e, u, t):
        # exact: a mutation of the operand of an explicit conversion may apply before or after it, so converting casts are hidden in
        # functions; float to integer conversions always are, because they are undefined for some values
        if u != t and (not self.broad or (u in FTYPES and t in ITYPES)):
            return 'cv_%s_%s(%s)' % (ABB[u], ABB[t], e)
        if self.lang == 'cc' and self.r.random() < 0.5:
            return 'static_cast<%s>(%s)' % (t, e)
        return '((%s)(%s))' % (t, e)

    def paren_lv(self, v):
        return '(' + v + ')' if self.r.random() < 0.1 or not v.isalnum() else v

    def without(self, root, f):
        save = self.vars
        self.vars = [v for v in self.vars if v[2] != root]
        try:
            return f()
        finally:
            self.vars = save

    def withoutall(self, roots, f):
        save, sa = self.vars, self.arrs
        self.vars = [v for v in self.vars if v[2] not in roots]
        self.arrs = [a for a in self.arrs if a[0] not in roots]
        try:
            return f()
        finally:
            self.vars, self.arrs = save, sa

    def pair(self, f1, f2, se):
        """Two unsequenced operands: at most one has side effects, and the other one does not mention what that one does."""
        r = self.r
        if se and r.random() < 0.6:
            if r.random() < 0.5:
                a, ma, sa = f1(True)
                b, mb, sb = self.withoutall(ma, lambda: f2(False)) if sa else f2(False)
            else:
                b, mb, sb = f2(True)
                a, ma, sa = self.withoutall(mb, lambda: f1(False)) if sb else f1(False)
        else:
            a, ma, sa = f1(False)
            b, mb, sb = f2(False)
        return a, b, ma | mb, sa or sb

    def binary(self, t, d, se):
        r = self.r
        if t in FTYPES:
            op = r.choice(['+', '-', '*', '/'])
        else:
            op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '+', '-', '*'])
        if op in ('/', '%') and t not in FTYPES:
            a, b, m, s = self.pair(lambda x: self.expr(t, d - 1, False), lambda x: self.expr(t, d - 2, False), False)
            if not se:
                return '(%s) & (%s)' % (a, b), m, s
            return '%s %s %s(%s)' % (self.wrap(a), op, NZ[t], b), m, True
        if op in ('<<', '>>'):
            u = 'int' if r.random() < 0.7 else t
            a, b, m, s = self.pair(lambda x: self.expr(t, d - 1, x), lambda x: (lambda e: ('%s & %s' % (self.wrap(e[0]), '15' + SUF[u]), e[1], e[2]))(self.expr(u, d - 2, x)), se)
            return '%s %s (%s)' % (self.wrap(a), op, b), m, s
        a, b, m, s = self.pair(lambda x: self.expr(t, d - 1, x), lambda x: self.expr(t, d - 1, x), se)
        return '%s %s %s' % (self.wrap(a), op, self.wrap(b)), m, s

    def wrap(self, e):
        return e if e.isalnum() and self.r.random() < 0.9 else '(' + e + ')'

    def compare(self, d, se):
        t = self.ty()
        op = self.r.choice(['<', '>', '<=', '>=', '==', '!='])
        a, b, m, s = self.pair(lambda x: self.expr(t, d - 1, x), lambda x: self.expr(t, d - 1, x), se)
        return '%s %s %s' % (self.wrap(a), op, self.wrap(b)), m, s

    def logical(self, d, se):
        op = self.r.choice(['&&', '||'])
        a, ma, sa = self.cond(d - 1, se)
        if se and self.leave and self.r.random() < 0.3:
            b, mb, sb = '%s(%d) %s %dl' % (self.leave, self.r.randrange(8), self.r.choice(['>', '<', '!=']), self.r.choice([3, 25, 50])), set(), True
        else:
            b, mb, sb = self.cond(d - 1, se)
        return '%s %s %s' % (self.wrap(a), op, self.wrap(b)), ma | mb, sa or sb

    def boolean(self, d, se):  # C++ bool
        r = self.r
        k = r.choice(['cmp'] * 4 + ['log'] * 3 + ['lnot', 'leaf', 'cast'])
        if k == 'cmp':
            return self.compare(d, se)
        if k == 'log':
            return self.logical(d, se)
        if k == 'lnot':
            e, m, s = self.boolean(d - 1, se) if d > 1 else self.leaf('bool')
            return '!(%s)' % e, m, s
        if k == 'cast':
            e, m, s = self.expr('int', d - 1, se)
            return self.conv(e, 'int', 'bool'), m, s
        return self.leaf('bool')

    def cond(self, d, se):
        if self.lang == 'cc':
            if self.r.random() < 0.15:
                return self.expr(self.r.choice(['int', 'int', 'long', 'unsigned']), d, se)
            return self.boolean(max(d, 1), se)
        if self.r.random() < 0.7:
            return self.compare(max(d, 1), se) if self.r.random() < 0.7 else self.logical(max(d, 1), se)
        return self.expr('int', d, se)

    def call(self, t, d):
        c = [f for f in self.funcs if f.idx > self.fidx and f.ret == t]
        if not c:
            return self.leaf(t)
        f = self.r.choice(c)
        return self.callto(f, d)

    def callto(self, f, d):
        args, m = [], set()
        for (pt, pn, kind) in f.params:
            if kind == 'ptr':
                c = [v for v in self.vars if v[1] == pt and v[3] and v[2] not in m and not v[0].startswith('w')]
                if not c:
                    a = self.new('v')
                    self.pending.append('%s %s = %s;' % (pt, a, self.lit(pt)))
                    args.append('&' + a)
                    continue
                v = self.r.choice(c)
                args.append('&' + v[0] if not v[4] else v[5])
                m.add(v[2])
            else:
                e, m2, s = self.withoutall(m, lambda: self.expr(pt, min(d - 1, 2), False))
                args.append(e)
                m |= m2
        return '%s(%s)' % (f.name, ', '.join(args)), m, True

    # ------------------------------------------------------------ statements
    def emit(self, s):
        r = self.r
        pad = '  ' * self.ind
        if r.random() < 0.03:
            pad = '\t' * self.ind
        if r.random() < 0.04:
            self.out.append(pad + r.choice(['// é comment', '/* ünïcode */', '// if (x) { y = 1; }', '']))
        for p in self.pending:
            self.out.append(pad + p)
        self.pending = []
        if r.random() < 0.04:
            s = s + r.choice(['  // trailing', ' /* ü */', ' '])
        elif r.random() < 0.03:
            s = '/* é */ ' + s
        self.out.append(pad + s)

    def obs(self, d=2):
        r = self.r
        t = self.ty()
        if r.random() < 0.15:
            e, m, s = self.expr('double', d)
            self.emit('sim_obsd(%d, %s);' % (self.newtag(), e))
            return
        e, m, s = self.expr(t, d)
        self.emit(self.obsx(e, t))

    def obsx(self, e, t):
        if t in FTYPES:
            return 'sim_obsd(%d, %s);' % (self.newtag(), self.conv(e, t, 'double') if t != 'double' else e)
        return 'sim_obs(%d, %s);' % (self.newtag(), self.conv(e, t, 'long') if t != 'long' or self.r.random() < 0.2 else e)

    def decl(self, d=3):
        r = self.r
        t = self.ty() if not (self.lang == 'cc' and r.random() < 0.15) else 'bool'
        x = r.random()
        if x < 0.1 and t != 'bool':
            a = self.new('a')
            self.emit('%s %s[%s] = {%s};' % (t, a, r.choice(['4', '4', '2 + 2', '8 / 2']), ', '.join(self.expr(t, 1, False)[0] for _ in range(4))))
            self.arrs.append((a, t))
            return
        if x < 0.18:
            s = self.new('s')
            k = r.randrange(9)
            self.emit('struct rec %s = {%d, %du, %dl, %dul, %d.5, %d.0f};' % (s, k, k + 3, k * 5, k, k, k))
            for ft, fn in (('int', 'fi'), ('unsigned', 'fu'), ('long', 'fl'), ('double', 'fd')):
                self.vars.append(('%s.%s' % (s, fn), ft, s, True, False, None))
            return
        v = self.new()
        e, m, s = self.expr(t, d)
        q = ''
        wr = True
        if r.random() < 0.1:
            q, wr = 'const ', False
        elif r.random() < 0.05 and t != 'bool':
            v = self.new('w')  # its address is not passed on
            self.emit('volatile %s %s = %s;' % (t, v, e))
            self.vars.append((v, t, v, True, False, None))
            return
        elif self.lang == 'cc' and r.random() < 0.06:
            # a reference to a fresh variable; only used through the reference
            self.emit('%s %s = %s;' % (t, v, e))
            x = self.new('v')
            self.emit('%s &%s = %s;' % (t, x, v))
            self.vars.append((x, t, x, True, False, None))
            return
        if r.random() < 0.07 and wr and t != 'bool':
            # a pointer to a fresh variable; only used through the pointer
            self.emit('%s %s = %s;' % (t, v, e))
            p = self.new('p')
            self.emit('%s *%s = &%s;' % (t, p, v))
            self.vars.append(('(*%s)' % p, t, v, True, True, p))
            return
        if self.lang == 'cc' and r.random() < 0.15:
            self.emit('%sauto %s = %s;' % (q, v, e))
        elif self.lang == 'cc' and r.random() < 0.1 and t != 'bool':
            self.emit('%s%s %s(%s);' % (q, t, v, e))
        else:
            self.emit('%s%s %s = %s;' % (q, t, v, e))
        self.vars.append((v, t, v, wr, False, None))

    def assign(self, d=3):
        r = self.r
        c = [v for v in self.vars if v[3]]
        if not c:
            return self.decl(d)
        v = r.choice(c)
        t = v[1]
        x = r.random()
        if x < 0.2 and t != 'bool':
            self.emit(r.choice(['%s++;', '++%s;', '%s--;', '--%s;']) % self.paren_lv(v[0]))
            return
        op = '='
        if x < 0.55 and t != 'bool':
            op = r.choice(['+=', '-=', '*=', '/='] if t in FTYPES else ['+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '/=', '%='])
        if op in ('/=', '%=') and t in ITYPES:
            e, m, s = self.withoutall({v[2]}, lambda: self.expr(t, d - 2, False))
            self.emit('%s %s %s(%s);' % (v[0], op, NZ[t], e))
            return
        if op in ('<<=', '>>='):
            e, m, s = self.withoutall({v[2]}, lambda: self.expr(t, d - 2, False))
            self.emit('%s %s (%s & 7%s);' % (v[0], op, self.wrap(e), SUF[t]))
            return
        if op == '=' and r.random() < 0.8:
            e, m, s = self.expr(t, d, True)
            if s and v[2] in m:
                e, m, s = self.withoutall({v[2]}, lambda: self.expr(t, d, True))
        else:
            e, m, s = self.withoutall({v[2]}, lambda: self.expr(t, d, True))
        self.emit('%s %s %s;' % (v[0], op, e))

    def block(self, n, depth):
        nv, na = len(self.vars), len(self.arrs)
        self.ind += 1
        for _ in range(n):
            self.stmt(depth)
        self.ind -= 1
        del self.vars[nv:]
        del self.arrs[na:]

    def flat(self, depth):
        """A single statement without braces."""
        self.ind += 1
        o = self.out
        while True:
            self.out = []
            nv, na = len(self.vars), len(self.arrs)
            self.simple()
            del self.vars[nv:]
            del self.arrs[na:]
            code = [x for x in self.out if x.strip() and not x.strip().startswith('//') and not x.strip().startswith('/*')]
            body = self.out
            if len(code) == 1 and not any(code[0].strip().startswith(k) for k in ('int ', 'unsigned', 'long', 'double', 'float', 'const', 'bool', 'auto', 'struct')):
                break
        self.out = o + body
        self.ind -= 1

    def simple(self):
        r = self.r
        k = r.choice(['assign'] * 4 + ['obs'] * 4 + ['call', 'exprstmt'])
        if k == 'assign':
            c = [v for v in self.vars if v[3]]
            if not c:
                return self.obs()
            return self.assign(r.choice([1, 2, 3]))
        if k == 'obs':
            return self.obs(r.choice([1, 2, 3]))
        if k == 'call':
            c = [f for f in self.funcs if f.idx > self.fidx]
            if c:
                e, m, s = self.callto(r.choice(c), 2)
                self.emit(e + ';')
                return
            return self.obs()
        e, m, s = self.expr(self.ty(), r.choice([1, 2]))
        self.emit('(void)(%s);' % e if r.random() < 0.4 else e + ';')

    def stmt(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.45:
            if r.random() < 0.35:
                return self.decl(r.choice([1, 2, 3]))
            return self.simple()
        if self.broad and r.random() < self.gadget_p:
            return self.gadget(depth)
        k = r.choice(['if', 'if', 'ifflat', 'for', 'for', 'while', 'do', 'switch', 'block', 'decl', 'ret', 'foreach', 'lambda', 'cont', 'goto', 'assert'])
        if k == 'decl':
            return self.decl()
        if k == 'block':
            self.emit('{')
            self.block(r.choice([1, 2]), depth - 1)
            self.emit0('}')
            return
        if k in ('if', 'ifflat'):
            c, m, s = self.cond(2, True)
            if k == 'ifflat':
                self.emit('if (%s)' % c)
                self.flat(depth)
                if r.random() < 0.5:
                    self.emit0('else')
                    self.flat(depth)
                return
            self.emit('if (%s) {' % c)
            self.block(r.choice([1, 2]), depth - 1)
            if r.random() < 0.5:
                if r.random() < 0.3:
                    c2, m, s = self.cond(2, False)
                    self.emit0('} else if (%s) {' % c2)
                    self.block(1, depth - 1)
                self.emit0('} else {')
                self.block(r.choice([1, 2]), depth - 1)
            self.emit0('}')
            return
        if k == 'for':
            i = self.new('i')
            n = r.randrange(1, 4)
            inc = r.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1'])
            self.emit('for (int %s = 0; %s < %d; %s) {' % (i, i, n, inc.replace('%s', i)))
            self.vars.append((i, 'int', i, False, False, None))
            self.block(r.choice([1, 2]), depth - 1)
            if r.random() < 0.2:
                c, m, s = self.cond(1, False)
                self.emit0('  if (%s) %s;' % (c, r.choice(['break', 'continue'])))
            self.vars = [v for v in self.vars if v[0] != i]
            self.emit0('}')
            return
        if k in ('while', 'do'):
            i = self.new('i')
            self.emit('int %s = %d;' % (i, r.randrange(1, 4)))
            if k == 'while':
                self.emit0(r.choice(['while (%s > 0) {', 'while (%s) {']) % i)
            else:
                self.emit0('do {')
            self.block(r.choice([1, 2]), depth - 1)
            self.emit0('  %s%s;' % (i, r.choice(['--', ' -= 1'])))
            self.emit0('}' if k == 'while' else '} while (%s > 0);' % i)
            return
        if k == 'switch':
            e, m, s = self.expr('int', 2)
            self.emit('switch ((%s) & 3) {' % e)
            for c in range(r.randrange(1, 4)):
                br = r.random() < 0.5
                self.emit0('  case %d: %s' % (c, '{' if br else ''))
                self.ind += 1
                nv, na = len(self.vars), len(self.arrs)
                if br:
                    self.block(1, depth - 1)
                else:
                    self.flat(depth)
                del self.vars[nv:]
                del self.arrs[na:]
                if r.random() < 0.7:
                    self.emit0('  break;')
                self.ind -= 1
                if br:
                    self.emit0('  }')
            if r.random() < 0.7:
                self.emit0('  default:')
                self.ind += 1
                self.flat(depth)
                self.ind -= 1
            self.emit0('}')
            return
        if k == 'ret':
            if self.cur.ret != 'void':
                c, m, s = self.cond(2, True)
                e, m, s = self.expr(self.cur.ret, 2)
                if r.random() < 0.5:
                    self.emit('if (%s) return %s;' % (c, e))
                else:
                    self.emit('if (%s) {' % c)
                    self.emit0('  return %s;' % e)
                    self.emit0('}')
            return
        if k == 'cont':
            return self.obs()
        if k == 'assert':
            self.emit('%s(%s, "");' % ('static_assert' if self.lang == 'cc' else '_Static_assert', r.choice(['sizeof(int) == 4', '1 + 1 == 2', '(3 & 1) && 2 > 1'])))
            return self.simple()
        if k == 'goto':
            l = self.new('L')
            c, m, s = self.cond(2, True)
            self.emit('if (%s) goto %s;' % (c, l))
            self.emit0('{')
            self.block(r.choice([1, 2]), depth - 1)
            self.emit0('}')
            self.emit0('%s:' % l)
            return self.flat(depth)
        if k == 'foreach':
            if self.lang != 'cc' or not self.arrs:
                return self.obs()
            a = r.choice(self.arrs)
            x = self.new('x')
            self.emit('for (%s %s : %s) {' % (a[1], x, a[0]))
            self.vars.append((x, a[1], x, True, False, None))
            sa = self.arrs
            self.arrs = [b for b in self.arrs if b != a]
            self.block(1, depth - 1)
            self.arrs = sa
            self.vars = [v for v in self.vars if v[0] != x]
            self.emit0('}')
            return
        if k == 'lambda':
            if self.lang != 'cc':
                return self.obs()
            l, x = self.new('l'), self.new('x')
            self.emit('auto %s = [&](int %s) -> int {' % (l, x))
            save, sarr, spend = self.vars, self.arrs, self.cur
            self.vars = [v for v in self.vars if not v[4]] + [(x, 'int', x, True, False, None)]
            self.cur = Func('', 0, 'int', [], self.fidx)
            self.block(1, 0)
            e, m, s = self.expr('int', 2)
            self.emit0('  return /*END*/ %s;' % e)
            self.vars, self.arrs, self.cur = save, sarr, spend
            self.emit0('};')
            e, m, s = self.expr('int', 1, False)
            self.emit(self.obsx('%s(%s)' % (l, e), 'int'))
            return

    def emit0(self, s):
        for p in self.pending:
            self.out.append('  ' * self.ind + p)
        self.pending = []
        self.out.append('  ' * self.ind + s)

    def function(self, f, nstmts, depth):
        self.cur, self.fidx, self.lang = f, f.idx, self.langs[f.file]
        self.vars, self.arrs, self.out, self.ind, self.pending, self.locked = [], [], [], 1, [], set()
        ps = []
        for (pt, pn, kind) in f.params:
            if kind == 'ptr':
                ps.append('%s *%s' % (pt, pn))
                self.vars.append(('(*%s)' % pn if self.r.random() < 0.5 else '*' + pn, pt, pn, True, True, pn))
            else:
                ps.append('%s %s' % (pt, pn))
                self.vars.append((pn, pt, pn, True, False, None))
        # a dereference must be parenthesised wherever a postfix operator could follow
        self.vars = [((v[0] if v[0].startswith('(') else '(%s)' % v[0]) if v[4] else v[0],) + v[1:] for v in self.vars]
        head = '%s %s(%s) {' % (f.ret, f.name, ', '.join(ps) or 'void')
        if nstmts > 1:
            for _ in range(self.r.choice([0, 1, 2])):
                self.decl(self.r.choice([0, 1, 2]))
        for _ in range(nstmts):
            self.stmt(depth)
        if f.ret != 'void':
            e, m, s = self.expr(f.ret, 2)
            self.emit('return /*END*/ %s;' % e)
        for p in self.pending:
            self.out.append('  ' + p)
        return [head] + self.out + ['}', '']

    def program(self):
        r = self.r
        nf = {'tiny': 1, 'small': 2, 'medium': 3, 'large': 5}
        idx = 0
        thr = []
        # thread functions first (they may call everything after them)
        for t in range(self.nthreads):
            f = Func('thr_%d' % t, r.randrange(self.nfiles) if t else 0, 'void', [], idx)
            idx += 1
            self.funcs.append(f)
            thr.append(f)
        plan = []
        for i in range(self.nfiles):
            for _ in range(nf[self.sizes[i]]):
                plan.append(i)
        r.shuffle(plan)
        for i in plan:
            params = []
            for _ in range(r.randrange(0, 4)):
                t = self.ty()
                params.append((t, self.new('q'), 'ptr' if r.random() < 0.2 else 'val'))
            f = Func(self.new('fn_'), i, self.ty(), params, idx)
            idx += 1
            self.funcs.append(f)
        bodies = [[] for _ in range(self.nfiles)]
        callable_ = [f for f in self.funcs if f.ret != 'void']
        nst = {'tiny': (0, 2), 'small': (1, 3), 'medium': (2, 5), 'large': (3, 6)}
        self.all = self.funcs
        for f in reversed(self.funcs):
            sz = self.sizes[f.file]
            lo, hi = nst[sz]
            if f.ret == 'void':
                self.funcs = callable_
                self.thread = thr.index(f)
                bodies[f.file].insert(0, self.thread_body(f, callable_, thr))
            else:
                self.funcs = [g for g in callable_ if g.idx > f.idx]
                bodies[f.file].insert(0, self.function(f, r.randrange(lo, hi + 1), 1 if sz in ('tiny', 'small') else 2))
            self.funcs = self.all
        protos = []
        for f in self.all:
            protos.append('%s %s(%s);' % (f.ret, f.name, ', '.join(p[0] + (' *' if p[2] == 'ptr' else '') for p in f.params) or 'void'))
        files = {}
        names = []
        for i in range(self.nfiles):
            name = 'f%d.%s' % (i, self.langs[i])
            names.append(name)
            text = (self.mark if self.langs[i] == 'cc' else '') + '#include "prog.h"\n' + '\n'.join(self.fileparts[i]) + '\n' + '\n'.join('\n'.join(b) for b in bodies[i]) + '\n'
            files[name] = text
        files['prog.h'] = HEADER % '\n'.join(protos)
        m = '#include "prog.h"\nextern "C" void prog_thread(int fn) {\n  switch (fn) {\n'
        for t, f in enumerate(thr):
            m += '    case %d: %s(); break;\n' % (t, f.name)
        m += '    default: break;\n  }\n}\n'
        files['pmain.cc'] = m
        start = max(1, self.nthreads - (1 if self.nthreads > 2 and self.spawned else 0))
        return {'files': files, 'mutate': names, 'threads': start, 'langs': list(self.langs), 'nthreads': self.nthreads}

    spawned = False
    mark = ''
    gadget_p = 0.5

    def thread_body(self, f, callable_, thr):
        r = self.r
        self.cur, self.fidx, self.lang = f, f.idx, self.langs[f.file]
        self.vars, self.arrs, self.out, self.ind, self.pending, self.locked = [], [], [], 1, [], set()
        self.funcs = callable_
        k = self.thread
        if k == 0 and self.nthreads > 2 and r.random() < 0.6:
            self.spawned = True
            self.emit('sim_spawn(%d);' % (self.nthreads - 1))
        tiny = self.sizes[f.file] == 'tiny'
        if not tiny or r.random() < 0.3:
            for _ in range(r.choice([1, 2])):
                self.decl(r.choice([0, 1, 2]))
        for _ in range(r.choice([1, 2, 3]) if tiny else r.choice([2, 3, 4, 5])):
            if callable_ and r.random() < 0.75:
                g = r.choice(callable_)
                e, m, s = self.callto(g, 2)
                self.emit(self.obsx(e, g.ret))
            else:
                self.stmt(1)
        out = ['void %s(void) {' % f.name] + self.out + ['}', '']
        return out

    def gadget(self, depth):
        import gadgets
        return gadgets.gadget(self, depth)


TOKEN = re.compile(r'''(?P<pp>(?:^|(?<=\n))[ \t]*\#(?:\\\n|[^\n])*\n?)|(?P<lc>//[^\n]*\n?)|(?P<bc>/\*.*?\*/)|(?P<ws>[ \t\r\f\v]+|\n|\\\n)
    |(?P<raw>(?:u8|u|U|L)?R"(?P<d>[^\s()\\]*)\(.*?\)(?P=d)")|(?P<str>(?:u8|u|U|L)?(?:"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'))
    |(?P<num>\.?\d(?:[eEpP][+-]|'\w|[\w.])*)|(?P<id>[A-Za-z_$]\w*)
    |(?P<op><=>|<<=|>>=|\.\.\.|->\*|%:%:|\#\#|::|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|\.\*|<:|:>|<%|%>|%:|.)''', re.S | re.X)


def tokens(text):
    return [(m.lastgroup if m.lastgroup != 'd' else 'raw', m.group(0)) for m in TOKEN.finditer(text)]


def reformat(r, text, style):
    """The same tokens with other white space: 'dense' drops all that is optional, 'noisy' draws every gap."""
    ts = [('raw', t) if k == 'd' else (k, t) for k, t in tokens(text)]
    out = []
    prev = None     # last token that is not white space
    gap = False
    bol = True
    for k, t in ts:
        if k == 'ws':
            gap = True
            continue
        if k == 'pp':
            if out and not out[-1].endswith('\n'):
                out.append('\n')
            out.append(t if t.endswith('\n') else t + '\n')
            prev, gap = None, False
            continue
        if prev is not None:
            joined = [x for x in tokens(prev + t)]
            need = [x[1] for x in joined] != [prev, t] or any(x[0] in ('lc', 'bc') for x in joined) and k not in ('lc', 'bc') and not prev.startswith('/')
            if prev == '<' and t.startswith(':') or prev[-1:] == '%' or t[:1] in '%#' or prev.startswith('//') or prev.startswith('/*') or k in ('lc', 'bc'):
                need = True
            x = r.random()
            if style == 'dense':
                sep = '' if not need else ' '
            elif x < 0.15:
                sep = '' if not need else ' '
            elif x < 0.6:
                sep = ' ' if gap or need else ''
            elif x < 0.68:
                sep = '\n'
            elif x < 0.74:
                sep = ' /*%d*/ ' % r.randrange(9)
            elif x < 0.78:
                sep = '/*%d*/' % r.randrange(9)
            elif x < 0.81:
                sep = ' //%d\n' % r.randrange(9)
            elif x < 0.84:
                sep = ' \\\n '
            else:
                sep = ' ' if gap or need else ''
            if prev.endswith('/') and sep.startswith('/'):
                sep = ' ' + sep
            if prev.startswith('//'):
                sep = ''
            if prev == 'return' and k == 'bc':
                sep = ' '
            out.append(sep)
        out.append(t)
        prev, gap = t, False
    return ''.join(out)


def generate(seed, **kw):
    p = generate_plain(seed, **kw)
    r = random.Random('format' + str(seed))
    for n in p['mutate']:
        x = r.random()
        if x < 0.3:
            p['files'][n] = reformat(r, p['files'][n], 'dense' if x < 0.15 else 'noisy')
    return p


def generate_plain(seed, **kw):
    rng = random.Random(seed)
    broad = kw.get('broad', False)
    g = Gen(rng, **kw)
    if broad:
        import gadgets
        gadgets.prepare(g)
    return g.program()


if __name__ == '__main__':
    import sys
    p = generate(sys.argv[1] if len(sys.argv) > 1 else '1', broad=len(sys.argv) > 2)
    for n, t in p['files'].items():
        if n.startswith('f'):
            print('// ====', n)
            print(t)
