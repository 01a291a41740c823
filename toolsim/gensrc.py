"""Generates compilable C / C++ translation units without system headers (workload for the tool simulator)."""
import re
ITY = ['int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned char', 'signed char', 'long long', 'unsigned long long', 'unsigned short']
FTY = ['float', 'double']

# '@': a fresh name; '#n': a literal
SNIPPETS = [
    'typedef unsigned @t; @t @f(@t a) { return a << 1 | #1u; }',
    'int @f(int *p, int n) { int s = #1; for (int i = 0; i < n; ++i) { s += p[i] * *(p + i); } return s; }',
    'int @f(int a) { do { a--; if (a == #1) continue; } while (a > #2); return a; }',
    'int @f(int a) { switch (a) { case 1 + 2: return a; case 7: a++; default: a -= #1; } return a; }',
    'int @f(int a) { int b[2][3] = {{1, #1, 3}, {4}}; b[1][2] = a; b[0][a & 1] += #2; return b[1][2] + b[0][0]; }',
    'int @f(const char *p) { int n = 0; while (*p++) { n++; } return n + "abc"[1]; }',
    'static int @g; void @f(void) { @g = !@g; @g ^= #1; if (@g) { @g = -@g; } else { @g = ~@g; } }',
    'double @f(double a, float b) { a *= b; b /= 2; return a > b ? a - b : +a; }',
    'int @f(int a) { goto out; out: a += #1; { ; } return a; }',
    'struct @s { int a; struct { int b; } c; }; int @f(struct @s s) { s.c.b = s.a--; return s.c.b; }',
    'int @f(int a) { return a ? (a, a + #1) : sizeof(a) + #2; }',
    'volatile int @v; int @f(void) { @v++; @v = @v + #1; return @v; }',
    'long @f(int n, ...) { return n + #1L; }',
    'int @f(int a) { static int k = 3 + 4; k += a; return k; }',
    'int (*@p)(int); int @f(int a) { return @p ? @p(a) + #1 : #2; }',
    '#define @M(a, b) ((a) * (b) + #1)\nint @f(int a) { return @M(a, a + #2) - @M(#3, a); }',
    'extern int @e(int a); int @f(int a) { @e(a + #1); return @e(#2); }',
    'unsigned char @f(unsigned char a) { a += #1; a <<= 1; return a & 0x7f; }',
    'int @f(void) { int a = #1, b = #1, c = 0; c = a == b && b != c || !a; return c; }',
]
SNIPPETS_CC = [
    'bool @f(bool a, bool b) { return (a || b) && !(a && b); }',
    'enum class @e { A, B = #1 }; int @f(@e x) { return x == @e::B ? static_cast<int>(x) + #2 : 0; }',
    'class @c { public: explicit @c(int a) : v_(a + #1) {} int get() const { return v_ * #2; } @c& operator+=(int b) { v_ += b; return *this; } private: int v_; };\nint @f(int a) { @c c(a); c += #3; return c.get() + 1; }',
    'constexpr int @k(int a) { return a * 2; }\nconstexpr int @K = @k(3);\nint @f(int a) { return a + @K; }',
    'template <int N> struct @s { int v[N]; };\nint @f(int a) { const int n = 2 + 1; @s<n> s{}; @s<n + 1> t{}; s.v[0] = a; return s.v[0] + t.v[n]; }',
    'template <typename T> T @m(T a, T b) { return a < b ? b : a; }\nlong @f(int a, long b) { return @m<long>(a, b) + @m(a, #1); }',
    'int @f(int a) { int arr[] = {1, a, #1}; int s = 0; for (auto& x : arr) { x++; s += x; } return s; }',
    'int @f(int a) { auto l = [a](auto b) mutable { a += b; return a; }; return l(#1) + l(a); }',
    'namespace @n { int v = #1; inline int g(int a) { return a + v; } }\nint @f(int a) { return @n::g(a) * 2; }',
    'int& @r(int& a) { a++; return a; }\nint @f(int a) { @r(a) += #1; (a > #2 ? @r(a) : a) = 3; return a; }',
    'struct @b { virtual ~@b() = default; virtual int g(int a) { return a + #1; } };\nstruct @d : @b { int g(int a) override { return @b::g(a) - 1; } };\nint @f(@b& x, int a) { return x.g(a); }',
    'int @f(int a) { try { if (a > #1) throw a + 1; return a; } catch (int e) { return e * 2; } }',
    'template <typename T> int @f(T a) { if constexpr (sizeof(T) > 4) { return static_cast<int>(a) + #1; } else { return a - 1; } }\nint @g(int a, long b) { return @f(a) + @f(b); }',
    'struct @s { int a = 1 + 2; static const int k = #1; int arr[3]; int f() { return arr[a - 1] + k; } };\nint @f(@s& s) { return s.f(); }',
    'static_assert(sizeof(int) + 1 > 2, "");\nint @f(int a) { const int n = #1; static_assert(n + 1 > n, ""); return a + n; }',
    'int @f(int* p) { delete p; int* q = new int(#1 + 2); int r = *q + 1; delete q; return r; }',
    'int @f(unsigned long long a) { return a != 0 && (a & (a - 1)) == 0; }',
]


class Gen:
    def __init__(self, r, cxx, prefix, size):
        self.r, self.cxx, self.p, self.size = r, cxx, prefix, size
        self.n = 0
        self.funcs = []

    def fresh(self, s='v'):
        self.n += 1
        return '%s%d' % (s, self.n)

    def lit(self, t):
        r = self.r
        if t in FTY:
            return '%d.%d%s' % (r.randrange(9), r.randrange(10), 'f' if t == 'float' else '')
        v = r.choice([0, 1, 2, 3, 7, 10, r.randrange(100)])
        return {'unsigned': '%du', 'long': '%dl', 'unsigned long': '%dul'}.get(t, '%d') % v

    def var(self, sc, t=None, lv=False):
        c = [v for v in sc if (t is None or v[1] == t) and (not lv or v[2])]
        return self.r.choice(c) if c else None

    def expr(self, sc, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            v = self.var(sc, t) if r.random() < 0.7 else None
            if v:
                return v[0]
            v = self.var(sc)
            if v and r.random() < 0.5:
                return '(%s)%s' % (t, v[0]) if not self.cxx or r.random() < 0.5 else 'static_cast<%s>(%s)' % (t, v[0])
            return self.lit(t)
        k = r.random()
        if t in FTY:
            if k < 0.6:
                return '(%s %s %s)' % (self.expr(sc, t, d - 1), r.choice('+-*/'), self.expr(sc, t, d - 1))
            if k < 0.75:
                return '(-%s)' % self.expr(sc, t, d - 1)
            return '(%s ? %s : %s)' % (self.cond(sc, d - 1), self.expr(sc, t, d - 1), self.expr(sc, t, d - 1))
        if k < 0.4:
            return '(%s %s %s)' % (self.expr(sc, t, d - 1), r.choice(['+', '-', '*', '&', '|', '^']), self.expr(sc, t, d - 1))
        if k < 0.5:
            return '(%s %s %s)' % (self.expr(sc, t, d - 1), r.choice(['/', '%']), self.lit(t).replace('0', '3'))
        if k < 0.58:
            return '(%s %s %d)' % (self.expr(sc, t, d - 1), r.choice(['<<', '>>']), r.randrange(4))
        if k < 0.68:
            return '(%s%s)' % (r.choice(['-', '~', '!']), self.expr(sc, t, d - 1))
        if k < 0.78:
            return '(%s)' % self.cond(sc, d - 1)
        if k < 0.86:
            return '(%s ? %s : %s)' % (self.cond(sc, d - 1), self.expr(sc, t, d - 1), self.expr(sc, t, d - 1))
        if k < 0.95 and self.funcs:
            f = r.choice(self.funcs)
            return '(%s)%s(%s)' % (t, f[0], ', '.join(self.expr(sc, a, d - 2) for a in f[1]))
        v = self.var(sc, None, True)
        if v and v[1] in ITY:
            return '(%s)(%s)' % (t, r.choice(['%s++', '++%s', '%s--', '--%s', '%s += 1', '%s = 2']) % v[0])
        return self.lit(t)

    def cond(self, sc, d):
        r = self.r
        if d > 0 and r.random() < 0.35:
            return '(%s %s %s)' % (self.cond(sc, d - 1), r.choice(['&&', '||']), self.cond(sc, d - 1))
        if d > 0 and r.random() < 0.1:
            return '!%s' % self.cond(sc, d - 1)
        t = r.choice(ITY + FTY)
        return '(%s %s %s)' % (self.expr(sc, t, d - 1), r.choice(['<', '<=', '>', '>=', '==', '!=']), self.expr(sc, t, d - 1))

    def stmts(self, sc, ind, d, n, loop):
        r, out = self.r, []
        sc = list(sc)
        pad = '  ' * ind
        for _ in range(n):
            k = r.random()
            if k < 0.22:
                t = r.choice(ITY + FTY)
                v = self.fresh()
                out.append('%s%s%s %s = %s;' % (pad, 'const ' if r.random() < 0.1 else '', t, v, self.expr(sc, t, 3)))
                sc.append((v, t, 'const' not in out[-1]))
            elif k < 0.5:
                v = self.var(sc, None, True)
                if v:
                    ops = ['=', '+=', '-=', '*='] + (['&=', '|=', '^=', '<<='] if v[1] in ITY else [])
                    op = r.choice(ops)
                    out.append('%s%s %s %s;' % (pad, v[0], op, '1' if op == '<<=' else self.expr(sc, v[1], 3)))
            elif k < 0.62 and d > 0:
                out.append('%sif (%s) {' % (pad, self.cond(sc, 2)))
                out += self.stmts(sc, ind + 1, d - 1, r.randrange(1, 3), loop)
                if r.random() < 0.4:
                    out.append(pad + '} else {')
                    out += self.stmts(sc, ind + 1, d - 1, r.randrange(1, 3), loop)
                out.append(pad + '}')
            elif k < 0.7 and d > 0:
                v = self.fresh('i')
                out.append('%sfor (int %s = 0; %s < %d; %s++) {' % (pad, v, v, r.randrange(1, 5), v))
                out += self.stmts(sc + [(v, 'int', False)], ind + 1, d - 1, r.randrange(1, 3), True)
                out.append(pad + '}')
            elif k < 0.74 and d > 0:
                out.append('%swhile (%s) {' % (pad, self.cond(sc, 1)))
                out += self.stmts(sc, ind + 1, d - 1, r.randrange(1, 3), True)
                out.append(pad + '  break;')
                out.append(pad + '}')
            elif k < 0.78 and d > 0:
                out.append('%sswitch (%s) {' % (pad, self.expr(sc, 'int', 2)))
                for c in range(r.randrange(1, 4)):
                    out.append('%s  case %d: {' % (pad, c * 2))
                    out += self.stmts(sc, ind + 2, 0, 1, False) + [pad + '  }']
                    if r.random() < 0.7:
                        out.append(pad + '    break;')
                out.append(pad + '  default: break;')
                out.append(pad + '}')
            elif k < 0.8 and loop:
                out.append(pad + 'if (%s) %s;' % (self.cond(sc, 1), r.choice(['break', 'continue'])))
            elif k < 0.9 and self.funcs:
                f = r.choice(self.funcs)
                out.append('%s%s(%s);' % (pad, f[0], ', '.join(self.expr(sc, a, 2) for a in f[1])))
            elif k < 0.93:
                v = self.fresh('arr')
                n_ = r.randrange(2, 6)
                size = r.choice(['%d', '1 + %d', '(%d)']) % n_
                out.append('%sint %s[%s];' % (pad, v, size))
                out.append('%s%s[%d] = %s;' % (pad, v, r.randrange(n_), self.expr(sc, 'int', 2)))
            elif k < 0.95:
                out.append(pad + '// a comment; with { braces')
            elif self.cxx and k < 0.98:
                v = self.fresh('lam')
                out.append('%sauto %s = [&](int q) -> int { return q %s %s; };' % (pad, v, r.choice('+-*'), self.expr(sc, 'int', 1)))
                out.append('%s(void)%s(%s);' % (pad, v, self.expr(sc, 'int', 1)))
            else:
                out.append(pad + ('static_assert' if self.cxx else '_Static_assert') + '(2 + 2 == 4, "ok");')
        return out

    def snippet(self):
        r = self.r
        t = r.choice(SNIPPETS_CC if self.cxx and r.random() < 0.7 else SNIPPETS)
        self.n += 1
        t = t.replace('@', '%s_q%d' % (self.p, self.n))
        return re.sub('#([0-9])', lambda m: str(r.choice([0, 1, 2, 3, 5, 8, 64])), t)

    def file(self, headers=()):
        r, out = self.r, []
        if r.random() < 0.3:
            out.append('/* %s */' % ''.join(r.choice('abc xyz') for _ in range(20)))
        for h in headers:
            out.append('#include "%s"' % h)
        if r.random() < 0.15:
            out.append('void __dredd_prelude_start();' if self.cxx else 'void __dredd_prelude_start(void);')
        g = self.p + '_g'
        out.append('static int %s = 3;' % g)
        out.append('static unsigned long %sx[4];' % g)
        if r.random() < 0.4:
            out.append('enum %s_e { %s_A, %s_B = 4, %s_C };' % ((self.p,) * 4))
        if r.random() < 0.4:
            out.append('struct %s_s { int a; unsigned b : 5; double c; };' % self.p)
            out.append('int %s_use(struct %s_s *s) { s->a += s->b; s->c = s->a * 2.0; return s->a; }' % (self.p, self.p))
        if r.random() < 0.2:
            out.append('#define %s_INC(x) ((x) + 1)' % self.p)
            out.append('int %s_mac(int a) { return %s_INC(a) + a; }' % (self.p, self.p))
        if self.cxx and r.random() < 0.5:
            out.append('template <typename T> T %s_tmpl(T a, T b) { if (a < b) { return a + b; } return a - b; }' % self.p)
            out.append('template <int N> struct %s_box { int v[N]; int sum() const { int s = 0; for (int i = 0; i < N; i++) s += v[i]; return s; } };' % self.p)
            out.append('int %s_t() { %s_box<2 + 1> b{}; return %s_tmpl(1, 2) + b.sum(); }' % (self.p, self.p, self.p))
        for _ in range(self.size):
            if r.random() < 0.5:
                out.append(self.snippet())
            name = '%s_f%d' % (self.p, len(self.funcs))
            args = [(self.fresh('a'), r.choice(ITY + FTY)) for _ in range(r.randrange(0, 4))]
            t = r.choice(ITY + FTY)
            sc = [(a, ty, True) for a, ty in args] + [(g, 'int', True)]
            out.append('%s%s %s(%s) {' % ('static ' if r.random() < 0.2 else '', t, name, ', '.join('%s %s' % (ty, a) for a, ty in args) or ('' if self.cxx else 'void')))
            out += self.stmts(sc, 1, 2, r.randrange(1, 6), False)
            out.append('  return %s;' % self.expr(sc, t, 3))
            out.append('}')
            self.funcs.append((name, [ty for _, ty in args]))
        eol = '\r\n' if r.random() < 0.04 else '\n'
        if r.random() < 0.05:
            out.append('// na\u00efve \u2713 comment')
        return eol.join(out) + ('\n' if r.random() < 0.95 else '')


def good(r, cxx, prefix, size, headers=()):
    return Gen(r, cxx, prefix, size).file(headers)


def empty(r, cxx, prefix):
    return r.choice(['', '// nothing here\n', 'extern int %s_x;\n' % prefix, 'struct %s_q { int a; };\nint %s_decl(int);\n' % (prefix, prefix)])


def bad(r, cxx, prefix):
    g = good(r, cxx, prefix, 1).rstrip('\n') + '\n'  # some sources end in a comment without a newline
    k = r.randrange(12)
    if k == 0:
        return g + 'int %s_broken( { return 0; }\n' % prefix
    if k == 1:
        return g + 'int %s_u(void) { return undeclared_thing + 1; }\n' % prefix
    if k == 2:
        return '#include "no_such_header_%s.h"\n' % prefix + g
    if k == 3:
        return '#error broken\n' + g
    if k == 4:
        return 'int %s_first(int a) { return a + ; }\n' % prefix + g
    if k == 5:
        return g + 'int %s_unterminated(int a) { if (a) { return 1;\n' % prefix
    if k <= 7:  # a warning promoted to an error: the AST is complete, the file is rejected all the same
        return '#pragma clang diagnostic error "-Wunused-variable"\n' + g + 'int %s_promoted(int a) { int unused_one = 3; return a + 1; }\n' % prefix
    if k == 8:  # so many errors that the compiler gives up with a fatal one
        return g + ''.join('int %s_m%d(int a) { return missing_%d + a; }\n' % (prefix, i, i) for i in range(25))
    if k == 9 and cxx:  # found only when a template is instantiated at the end of the file
        return g + 'template <typename T> int %s_late(T t) { return t.nothing() + 1; }\nint %s_inst(int a) { return %s_late(a) + 2; }\n' % ((prefix,) * 3)
    if k == 10:
        return g + ('static_assert' if cxx else '_Static_assert') + '(1 + 1 == 3, "no");\n'
    return g + 'int %s_twice(int a) { return a + 1; }\nint %s_twice(int a) { return a + 2; }\n' % (prefix, prefix)
