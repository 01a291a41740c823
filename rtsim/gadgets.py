"""Language-feature gadgets for broad programs (the reference is the original program, so anything deterministic goes).

A gadget is (languages, top-level text, statement text). In both texts:
  $1..$9         names unique to this instance
  %i %u %l %d    side-effect free expression of type int, unsigned, long, double; %b a C++ bool / C int condition
  %I %L %B       the same, side effects allowed
  %k             small literal 1..4         %z literal 0..3          %t a fresh observation tag
  %i[a,b:l]      the expression may only use the listed variables (i, u, l, d, b; default int), not the enclosing scope
  <<x||y>>       one of the alternatives
  ~~             a nested block of statements (statement text only)
"""
import re

T = {'i': 'int', 'u': 'unsigned', 'l': 'long', 'd': 'double', 'b': 'bool', 'w': 'unsigned long', 'f': 'float'}
CC, C, BOTH, CC20 = ('cc',), ('c',), ('c', 'cc'), ('cc20',)
GADGETS = []


def add(langs, top, body, weight=1):
    for _ in range(weight):
        GADGETS.append((langs, top, body))


def fill(g, text, names, top):
    r = g.r

    def alt(m):
        return r.choice(m.group(1).split('||'))
    while '<<' in text and '>>' in text and re.search(r'<<((?:(?!<<|>>).)*\|\|(?:(?!<<|>>).)*)>>', text, re.S):
        text = re.sub(r'<<((?:(?!<<|>>).)*\|\|(?:(?!<<|>>).)*)>>', alt, text, flags=re.S)
    text = text.replace(' LSH ', ' << ').replace(' LSE ', ' <<= ').replace(' OR ', ' || ')
    text = re.sub(r'\$(\d)', lambda m: names.setdefault(m.group(1), g.new('g')), text)

    def ex(m):
        if m.group(0) == '%%':
            return '%'
        k, scope = m.group(1), m.group(3)
        if k == 't':
            return str(g.newtag())
        if k == 'k':
            return str(r.randrange(1, 5))
        if k == 'z':
            return str(r.randrange(0, 4))
        sv, sa, sf = g.vars, g.arrs, g.funcs
        if scope is not None or top:
            g.vars, g.arrs, g.funcs = [], [], []
            for v in (scope or '').split(','):
                if v:
                    n, _, t = v.partition(':')
                    g.vars.append((n, T[t or 'i'], n, False, False, None))
        try:
            se = k.isupper()
            d = r.choice([1, 1, 2, 2, 3]) if not top else r.choice([1, 2])
            kk = k.lower()
            if kk == 'b':
                return g.wrap(g.cond(d, se)[0])
            return g.wrap(g.expr(T[kk], d, se)[0])
        finally:
            g.vars, g.arrs, g.funcs = sv, sa, sf
    return re.sub(r'%%|%([iuldbILBktzwf])(?![a-z0-9])(\[([^\]]*)\])?', ex, text)


def gadget(g, depth):
    c = g._gadgets[g.lang]
    langs, top, body = g.r.choice(c)
    names = {}
    if top:
        g.fileparts[g.cur.file].append(fill(g, top, names, True).strip('\n'))
    text = fill(g, body, names, False).strip('\n')
    for line in text.split('\n'):
        if line.strip() == '~~':
            g.block(1, 0)
        else:
            g.emit0(line)


def prepare(g, std20=None):
    if std20 is None:
        std20 = g.r.random() < 0.3
    g._gadgets = {l: [x for x in GADGETS if l in x[0]] for l in ('c', 'cc')}
    if std20:
        # The gadgets that need C++20 are few, so they get more weight.
        g.mark = '// -std=gnu++20\n'
        g._gadgets['cc'] += [x for x in GADGETS if 'cc20' in x[0]] * 3
    for i, l in enumerate(g.langs):
        if l == 'cc':
            g.fileparts[i].append(('#include <concepts>\n#include <coroutine>\n' if std20 else '') + '#include <algorithm>\n#include <array>\n#include <atomic>\n#include <functional>\n#include <map>\n#include <memory>\n#include <numeric>\n#include <optional>\n#include <stdexcept>\n#include <string>\n#include <tuple>\n#include <utility>\n#include <variant>\n#include <vector>\n#include <csetjmp>\n#include <cstring>\n#include <alloca.h>')
        else:
            g.fileparts[i].append('#include <setjmp.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <limits.h>\n#include <stdint.h>')


# ---------------------------------------------------------------------------------------------- exceptions, destructors
add(CC, '''
static int $1(int a, int b) {
  if (%b[a,b]) {
    throw <<a + b||std::runtime_error("x")||static_cast<long>(a)>>;
  }
  return %i[a,b];
}''', '''
try {
  sim_obs(%t, $1(%i, %i) + %i);
  ~~
} catch (int e) {
  sim_obs(%t, e + %i);
} catch (const std::exception& e) {
  sim_obss(%t, e.what());
} catch (...) {
  sim_obs(%t, %l);
}''', 2)
add(CC, '''
struct $1 {
  int id;
  explicit $1(int i) : id(i + %i[i]) { sim_obs(%t, id); }
  ~$1() { sim_obs(%t, id * %k); }
};''', '''
for (int $2 = 0; $2 < %k; $2++) {
  $1 $3(%i);
  if (%b) <<break||continue>>;
  ~~
}''', 2)
add(CC, '''
struct $1 {
  int* p;
  ~$1() { *p += %i[]; }
};
static int $2(int a) {
  int r = a;
  $1 g{&r};
  if (%b[a]) return r + %i[a];
  r = %i[a];
  return r;
}''', 'sim_obs(%t, $2(%i));')
add(CC, '''
static int $1(int n) {
  try {
    if (n > 2) throw n;
    return n + 1;
  } catch (int& e) {
    e = e - %k;
    if (e > 3) throw;
    return -e;
  }
}''', '''
try {
  sim_obs(%t, <<$1(%z) + $1(%z)||$1(%k * 2)||$1(%i & 7)>>);
} catch (int e) {
  sim_obs(%t, e);
}''')
add(CC, '''
struct $1 {
  int v;
  $1(int a) try : v(a > %k ? throw a : a + 1) {
  } catch (int x) {
    sim_obs(%t, x);
  }
};''', '''
try {
  $1 $2(%i & 7);
  sim_obs(%t, $2.v);
} catch (int $3) {
  sim_obs(%t, $3 + 100);
}''')
# ---------------------------------------------------------------------------------------------- errno and failing operations
add(BOTH, None, '''
errno = 0;
if (sim_env(%z) < 0 <<&& %b||>>) {
  sim_obs(%t, errno + %i);
} else {
  sim_obs(%t, %i);
}
sim_obs(%t, errno);''', 3)
add(BOTH, None, '''
{
  long $1 = sim_env(%z);
  int $2 = errno;
  int $3 = (%i) + ($1 < 0 ? $2 : 1);
  sim_obs(%t, $3 + ($1 < 0 ? errno : 0));
}''', 2)
add(BOTH, None, '''
{
  int *$1 = (int *)sim_alloc(16);
  if (!$1) {
    sim_obs(%t, errno);
  } else {
    $1[1] = %i;
    $1[$1[0]] += %k;
    sim_obs(%t, $1[0] + $1[1]);
  }
}''', 2)
add(BOTH, None, '''
while (sim_env(%z) < 0 && errno == EINTR) {
  sim_obs(%t, %i);
  if (sim_tick()) break;
}''')
# ---------------------------------------------------------------------------------------------- thread-locals, locks, statics
add(CC, '''
static thread_local int $1 = %k + 1;
static thread_local long $2;''', '''
$1 += %i;
$2 = $2 + $1;
sim_obs(%t, $2 + (%i));''')
add(CC, '''
struct $1 {
  int n = 0;
  ~$1() { if (n > %z) { sim_obs(%t, n * 2 + 1); } else { sim_obs(%t, n - 1); } }
};
static thread_local $1 $2;''', '$2.n += (%i) & 7;', 2)
add(BOTH, '''
static int $1;
static int $2(int d) {
  sim_lock(1);
  $1 = $1 + d;
  int r = $1;
  if (r > 50) {
    $1 -= 40;
    sim_unlock(1);
    return r - 1;
  }
  sim_unlock(1);
  return r;
}''', 'sim_obs(%t, $2((%i) & 15) + %k);', 2)
add(BOTH, '''
static int $1(int d) {
  static int n = 3;
  int r;
  sim_lock(2);
  n += d;
  r = n * 2;
  sim_unlock(2);
  return r;
}''', 'sim_obs(%t, $1(%i & 7));')
add(CC, '''
static int $1(int x) { sim_obs(%t, x); return x + 1; }
static int $2() {
  sim_lock(3);
  static int once = $1(%i[]);
  int r = once++;
  sim_unlock(3);
  return r;
}''', 'sim_obs(%t, $2() + %i);')
add(CC, '''
static int $2 = %k;
static const int $3 = $2 * 3 + %k;
static int $4 = $3 + ($2 << 2);''', 'sim_obs(%t, $4 + $3 - %i);')
# ---------------------------------------------------------------------------------------------- lambdas and callables
add(CC, None, '''
{
  int $1 = %i;
  auto $2 = [$1, $4 = %k + 1](int a) <<mutable||>> { return a + $1 * $4 - %i[a]; };
  $1 = 0;
  sim_obs(%t, $2(%i) + $2(%k));
}''', 2)
add(CC, None, '''
{
  int $1 = %z;
  auto $2 = [&$1]() { return $1++ < 3 && $1 > %z; };
  while ($2()) {
    sim_obs(%t, $1 + %k);
  }
}''')
add(CC, None, '''
{
  auto $1 = [](auto a, auto b) { if (a < b) { return b - a; } return <<a * 2||a + b>>; };
  sim_obs(%t, $1(%i, %i) + $1(2, 3));
  sim_obs(%t, static_cast<long>($1(%l, %l)));
}''', 2)
add(CC, None, '''
{
  std::function<int(int)> $1 = [&](int n) -> int { return n <= 1 ? n + %z : $1(n - 1) + $1(n - 2) * %k; };
  sim_obs(%t, $1((%i) & 3));
}''')
add(CC, '''
static int $1(const std::function<int(int, int)>& f, int x) { return f(x, x + 1) - f(x * 2, %k); }''', '''
sim_obs(%t, $1([](int a, int b) { return a * %k - b; }, %i));''')
add(CC, '''
struct $1 {
  int base;
  int operator()(int x) const { return base + x * %k; }
  int member(int x) { base -= x; return base; }
};''', '''
{
  $1 $2{%i};
  int ($1::*$3)(int) = &$1::member;
  sim_obs(%t, $2(%i) + %k);
  sim_obs(%t, ($2.*$3)(%i));
  int $1::*$4 = &$1::base;
  $2.*$4 += %i;
  sim_obs(%t, $2.base);
}''')
add(BOTH, '''
static int $1(int x) { return x + %k; }
static int $2(int x) { return x * %k - 1; }''', '''
{
  int (*$3[2])(int) = {$1, $2};
  int (*$4)(int) = (%i) & 1 ? $1 : $2;
  sim_obs(%t, $3[(%i) & 1](%i) + $4(%k));
}''', 2)
# ---------------------------------------------------------------------------------------------- templates and constant evaluation
add(CC, '''
template <typename T> static T $1(T a, T b) {
  T r = a;
  for (int i = 0; i < %k; i++) {
    if (r < b) { r = r + b; } else { r = static_cast<T>(r - a - 1); }
  }
  return r;
}''', '''
sim_obs(%t, $1<int>(%i, %i));
sim_obs(%t, static_cast<long>($1<long>(%l, %k)));
sim_obsd(%t, $1<double>(0.5, 2.0));''', 2)
add(CC, '''
template <int N, typename T = int> struct $1 {
  static constexpr int size = N * 2 + 1;
  T v[N + 1];
  T sum() const { T s = 0; for (int i = 0; i < N; i++) s += v[i] + i; return s; }
  static_assert(size > 2, "size");
};''', '''
{
  $1< <<3||%k + 1||sizeof(int)||2, long>> > $2 = {{1, 2}};
  $2.v[1] = %i & 255;
  sim_obs(%t, $2.sum() + $2.size);
}''')
add(CC, '''
template <typename... A> static int $1(A... a) { return (0 + ... + a) + static_cast<int>(sizeof...(a)) * %k; }
template <typename H, typename... R> static int $2(H h, R... r) {
  if constexpr (sizeof...(r) > 0) { return h - $2(r...); } else { return h + 1; }
}''', '''
sim_obs(%t, $1(1, 2, %i));
sim_obs(%t, $2(%i, 2, 3));''')
add(CC, '''
constexpr int $1(int n) { return n <= 1 ? 1 : n * $1(n - 1); }
static constexpr int $2 = $1(4) + 2;
enum { $3 = $1(3) * 2 };
static const int $5 = 2 + 1;''', '''
{
  static_assert($2 == 26, "factorial");
  int $4[$5 + 1] = {$3, %i, $2};
  constexpr int $6 = $5 * 2;
  std::array<int, $5> $7 = {1, 2, %k};
  sim_obs(%t, $4[%z] + $1(%i & 3) + $6 + $7[1] + static_cast<int>(sizeof($4) / sizeof($4[0])));
}''', 2)
add(CC, '''
template <typename T> struct $1 { static const char* name() { return "other"; } };
template <> struct $1<int> { static const char* name() { return "int"; } };
template <> struct $1<bool> { static const char* name() { return "bool"; } };
template <> struct $1<long> { static const char* name() { return "long"; } };
template <> struct $1<unsigned char> { static const char* name() { return "uchar"; } };
template <typename T> static const char* $2(T) { return $1<T>::name(); }
static const char* $3(int) { return "i"; }
static const char* $3(bool) { return "b"; }
static const char* $3(long) { return "l"; }
static const char* $3(double) { return "d"; }
static const char* $3(unsigned) { return "u"; }''', '''
{
  unsigned char $4 = %k;
  short $5 = 3;
  sim_obss(%t, $2(<<%i||%i < %i||!%i||%l||$4||$4 + $5||-$5||$5 && $4||static_cast<unsigned char>($4 + 1)>>));
  sim_obss(%t, $3(<<%i||%b||%l||%d||%u||-$5||$4 LSH 1||$4 == $5||1u + $5>>));
  auto $6 = <<%i||%b||%l||$4 + 1>>;
  decltype($6 + 1) $7 = $6;
  sim_obs(%t, sizeof($6) * 10 + sizeof($7));
}''', 3)
# ---------------------------------------------------------------------------------------------- classes
add(CC, '''
struct $1 {
  virtual ~$1() {}
  virtual int area(int s) const { return s * %k; }
  int twice(int s) const { return area(s) + area(s + 1); }
};
struct $2 : $1 {
  int k = 2 + 1;
  int area(int s) const override { return $1::area(s) - k; }
};''', '''
{
  $1 $3;
  $2 $4;
  const $1& $5 = %b ? $3 : $4;
  sim_obs(%t, $5.twice(%i));
}''')
add(CC, '''
struct $1 {
  int x, y;
  $1(int a, int b = %k) : x(a + 1), y(b) {}
  $1 operator+(const $1& o) const { return $1(x + o.x, y - o.y); }
  bool operator<(const $1& o) const { return x < o.x || (x == o.x && y < o.y); }
  int& operator[](int i) { return i ? y : x; }
  $1& operator++() { ++x; return *this; }
  $1 operator++(int) { $1 t = *this; x += 2; return t; }
  explicit operator bool() const { return x != y; }
  operator int() const { return x * 3 + y; }
};''', '''
{
  $1 $2(%i), $3{%i, %k};
  $1 $4 = $2 + $3;
  $4[%z & 1] = %i;
  ++$4[1];
  $4[0] += $3[1];
  sim_obs(%t, $2 < $3);
  sim_obs(%t, (++$2)[0] + ($3++).x);
  if ($4) { sim_obs(%t, $4); }
  if ($2 < $3 && $4[0] > %z) sim_obs(%t, $4.y);
  int $5 = $2;
  sim_obs(%t, $5 + $4);
}''', 3)
add(BOTH, '''
struct $1 { unsigned a : 3; int b : 5; unsigned c : 12; };''', '''
{
  struct $1 $2 = {1, 2, 3};
  $2.a += %i;
  $2.b = %i;
  $2.c = $2.a * $2.b + %k;
  $2.a++;
  --$2.c;
  if ($2.a && $2.b < %i) $2.c ^= 5;
  sim_obs(%t, $2.a + $2.b + $2.c);
}''', 2)
add(CC, '''
class $1 {
 public:
  static int count(int d) { return d * k + %k; }
  int bump() { return ++n_; }
  int get() const { return n_; }
  int& ref() { return n_; }
 private:
  static const int k = 3;
  int n_ = 2;
};''', '''
{
  $1 $2;
  $2.ref() = %i;
  $2.ref()++;
  $2.ref() += $2.get() & %k;
  sim_obs(%t, $2.bump() + $1::count(%i));
  $2.bump();
  sim_obs(%t, $2.get());
}''')
add(CC, '''
struct $1 {
  long v;
  $1(long x) : v(x) {}
  friend $1 operator"" _q$1(unsigned long long x);
};
$1 operator"" _q$1(unsigned long long x) { return $1(static_cast<long>(x) + 1); }''', 'sim_obs(%t, (5_q$1).v + %l);')
# ---------------------------------------------------------------------------------------------- enums, switches, control flow
add(CC, '''
enum class $1 : <<unsigned char||int||long>> { A = 1, B, C = B + 3 };
static int $2($1 e, int x) {
  switch (e) {
    case $1::A: x += %k;
    case $1::B: x = x * 2 - 1; break;
    case $1::C: { x = -x; break; }
    default: return %i[x];
  }
  return x + static_cast<int>(e);
}''', '''
sim_obs(%t, $2(static_cast<$1>((%i) & 7), %i));
sim_obs(%t, $2(%b ? $1::A : $1::C, %k));''', 2)
add(BOTH, '''
enum $1 { $2, $3 = 5, $4 = $3 * 2 + 1 };''', '''
{
  enum $1 $5 = %b ? $3 : $4;
  switch ($5) {
    case $2:
    case $3: sim_obs(%t, $5 + %k);
      <<break;||>>
    case 11 + 0 * $3: {
      sim_obs(%t, $5 | 64);
      break;
    }
    default:
      sim_obs(%t, %i);
  }
  if ($5 > $3 && $5 != %z) sim_obs(%t, $5 * 2);
}''', 2)
add(BOTH, None, '''
{
  int $1 = %z;
$2:
  $1 = $1 + 1;
  if ($1 < 3 && %b) goto $2;
  if ($1 > %k) goto $3;
  sim_obs(%t, $1);
$3:;
  sim_obs(%t, $1 * 2);
}''', 2)
add(BOTH, None, '''
{
  int $1 = %z, $2 = 0;
  do {
    $2 += $1 * %k;
    if ($2 > 9) break;
    if ($1 == 1) { $1 += 2; continue; }
  } while (++$1 < 4 && $2 < 20);
  for (;;) {
    if ($2-- <= %k) break;
    $1 ^= $2;
  }
  for ($2 = 0, $1++; $2 < 2; $2++, $1 += %k) sim_obs(%t, $1);
  sim_obs(%t, $1 + $2);
}''', 2)
add(CC, None, '''
if (int $1 = %i; $1 > %z) {
  sim_obs(%t, $1);
} else if (auto $2 = $1 + %k; $2 < 0) {
  sim_obs(%t, $2 - $1);
}
switch (int $3 = (%i) & 3; $3) {
  case 0: sim_obs(%t, $3 + 1); break;
  case 1: case 2: sim_obs(%t, -$3); [[fallthrough]];
  default: sim_obs(%t, %i);
}
if (int $4 = (%i) & 1) sim_obs(%t, $4);
while (int $5 = sim_tick() ? 0 : 0) { sim_obs(%t, $5); }
for (int $6 = 2; int $7 = $6 - 1; $6--) sim_obs(%t, $7);''', 2)
add(BOTH, '''
#define $1(x) ((x) * 2 + 1)
#define $2(a, b) do { int t_ = (a); (a) = (b); (b) = t_; } while (0)
#define $3 (3 + 4)
#define $4(x) if (x) sim_obs(%t, 1); else sim_obs(%t, 2)
#define $5 int $8 = 3 + %k;
#define $9 $3 -''', '''
{
  int $6 = %i, $7 = %k;
  $5
  $2($6, $7);
  sim_obs(%t, $1($6 + 1) + $3 * $7 + $8);
  $4($6 > $7 && %b);
  sim_obs(%t, $9 $6);
  sim_obs(%t, $1($1($7)) + (%i));
}''', 2)
add(BOTH, '''
static int $1(int n, int acc) {
  if (n <= 0) return acc;
  return $1(n - 1, acc + n * %k);
}''', 'sim_obs(%t, $1((%i) & 3, %i));')
# ---------------------------------------------------------------------------------------------- arrays, pointers, sizes
add(BOTH, None, '''
{
  int $1[2][3] = {{1, 2, 3}, {4, %k, 6}};
  int *$2 = &$1[0][0];
  int (*$3)[3] = $1 + 1;
  $1[(%i) & 1][%z % 3] = %i;
  $2[4]++;
  *($2 + 1) += %k;
  *$2++ = 7;
  sim_obs(%t, (*$3)[1] + $1[0][1] + *$2 + (int)($2 - &$1[0][0]));
  sim_obs(%t, (long)(sizeof($1) / sizeof($1[0]) + sizeof(int) * %k));
  for (const int *$4 = $2; $4 < $1[1]; $4++) sim_obs(%t, *$4);
}''', 3)
add(BOTH, None, '''
{
  char $1[16] = "hello";
  int $2 = 0;
  for (char *$3 = $1; *$3; $3++) {
    if (*$3 == 'l' || *$3 > 'n') *$3 -= %k; else *$3 ^= ' ';
    $2 = $2 * 3 + *$3;
  }
  $1[%z] = 'A' + %k;
  sim_obs(%t, $2);
  sim_obss(%t, $1);
  sim_obs(%t, (long)strlen($1 + %z) + "abcdef"[%z]);
}''', 2)
add(BOTH, None, '''
{
  int $1 = %i;
  const int *$2 = %b ? &$1 : 0;
  const char *$3 = %b ? "yes" : 0;
  if ($2 && *$2 > %z) sim_obs(%t, *$2);
  if (!$2) sim_obs(%t, 0 - %k);
  sim_obs(%t, ($2 != 0) + ($3 ? (long)$3[0] : 9l));
  while ($2) { sim_obs(%t, *$2 + 1); $2 = 0; }
}''', 2)
add(BOTH, None, '''
{
  signed char $1 = (signed char)(%i);
  unsigned char $2 = (unsigned char)(%i);
  short $3 = (short)(%i);
  unsigned short $4 = 65535;
  long long $5 = %i;
  unsigned long long $6 = %k;
  float $7 = 1.5f;
  $1 += 3; $2 -= $3; $3 *= 2; $4++; $5 <<= 3; $6 |= $5; $7 /= 2;
  $1++; --$2; $3--; $2 ^= 15; $4 >>= 1; $6 %%= 7; $1 = $2 + $3;
  sim_obs(%t, $1 + $2 * $3 - $4);
  sim_obs(%t, (long)($5 + $6));
  sim_obs(%t, ($1 < $2) + ($4 == $3) * 2 + !$6 + ($5 && $7));
  sim_obsd(%t, $7 * $3 + $5);
}''', 3)
add(CC, None, '''
{
  bool $1 = %b, $2 = !$1;
  $1 |= %b;
  $2 &= $1;
  $1 = $1 ^ $2;
  int $3 = $1 + $2 * 2;
  $3 += $1 == $2;
  $3 -= $1 != true;
  char $4 = $1 ? 'x' : 'y';
  sim_obs(%t, $3 + $4 + -$1);
  if ($1 == false || $2) { sim_obs(%t, $1 & $2); }
}''', 2)
add(CC, '''
static int& $1(int& a, int& b) { return a < b ? a : b; }
static int $2(const int& x, int&& y) { return x - y; }''', '''
{
  int $3 = %i, $4 = %k;
  $1($3, $4) += %k;
  $1($3, $4)++;
  ($3 > $4 ? $3 : $4) = %i;
  int& $5 = $3;
  $5 = $5 * 2 - $4;
  sim_obs(%t, $3 + $4 * 10 + $2($3 + 1, %k) + $2(3, $4 + 1));
  (++$3) += 2;
  ($4 = 5) *= %k;
  (void)($3, $4);
  sim_obs(%t, ($3 += 1, $4 -= 2, $3 + $4));
}''', 2)
add(CC, '''
static int $1(int a, int b = 2 + %k, int c = %i[]) { return a * b - c; }
inline namespace $2 { static int $3(int x) noexcept { return x + %k; } }
static auto $4(int x) -> decltype(x + 1) { return x - 1; }
[[nodiscard]] static int $5([[maybe_unused]] int x, int) { return x; }''', '''
sim_obs(%t, $1(%i) + $1(1, %i) + $2::$3(%i) + $4(%k));
static_assert(noexcept($3(1 + 1)), "n");
(void)$5(%i, %i);
if ($1(1) > 2) [[likely]] { sim_obs(%t, alignof(int) + sizeof(char[3 + 1])); }''')
add(BOTH, '''
static volatile int $1 = 3;''', '''
{
  volatile int $2 = %i;
  $2 = $2 + 1;
  $2 += %k;
  $2++;
  sim_obs(%t, $2 * 2 + ($1 > 2));
  if ($1 && $2 < %i) sim_obs(%t, -$2);
}''')
add(BOTH, '''
typedef unsigned int $1;
typedef long $2[2];
union $3 { int i; unsigned u; unsigned char c[4]; };''', '''
{
  $1 $4 = %u;
  $2 $5 = {1, %l};
  union $3 $6;
  $6.u = 0;
  $6.i = %i;
  $6.c[1] += %k;
  $4 = $4 * 3u + $6.u;
  $5[0] -= $5[1];
  sim_obs(%t, (long)$4 + $5[0] + $6.c[%z]);
}''')
# ---------------------------------------------------------------------------------------------- standard library
add(CC, None, '''
{
  std::vector<int> $1 = {3, 1, %k, %i};
  $1.push_back(%i);
  $1[1] += 2;
  $1[%z]++;
  $1.at(%z) = %i;
  std::sort($1.begin(), $1.end(), [](int a, int b) { return a < b; });
  $1.resize($1.size() - 1);
  for (auto& $2 : $1) { $2 = $2 * 2 + %k; }
  for (size_t $3 = 0; $3 < $1.size(); $3++) sim_obs(%t, $1[$3]);
  sim_obs(%t, std::accumulate($1.begin(), $1.end(), %k) + *$1.begin() + $1.back());
  try { $1.at(50 + %k) = 1; } catch (const std::out_of_range&) { sim_obs(%t, %i); }
}''', 2)
add(CC, None, '''
{
  std::map<int, std::string> $1;
  $1[%i & 7] = "a";
  $1[%k] += "b";
  $1.emplace(%k + 10, std::string(%k, 'z'));
  for (const auto& [$2, $3] : $1) { sim_obs($2 & 7, static_cast<long>($3.size()) + $2); sim_obss(%t, $3.c_str()); }
  if (auto $4 = $1.find(%z); $4 != $1.end() && $4->first < 3) { sim_obs(%t, $4->first + 1); }
  sim_obs(%t, $1.count(%k) ? %i : -1);
}''', 2)
add(CC, None, '''
{
  std::string $1 = "abc";
  $1 += 'd';
  $1 += std::to_string(%k + 1);
  $1[0] = static_cast<char>('A' + (%i & 3));
  if ($1.size() > 3u && $1.substr(%z, 2) != "bc") { sim_obss(%t, ($1 + "!" + std::to_string(%i)).c_str()); }
  size_t $2 = $1.find('c');
  sim_obs(%t, $2 == std::string::npos ? -1 : static_cast<int>($2));
  sim_obs(%t, $1 < std::string("b") ? 1 : 2);
}''', 2)
add(CC, None, '''
{
  std::optional<int> $1;
  if (%b) $1 = %i;
  sim_obs(%t, $1.value_or(%k) + ($1 ? *$1 : 3));
  std::unique_ptr<int> $2 = std::make_unique<int>(%i);
  *$2 += %k;
  ++*$2;
  if ($2 && *$2 > 2) sim_obs(%t, *$2);
  std::pair<int, long> $3{%i, %k};
  auto [$4, $5] = $3;
  $3.first += $4;
  std::tuple<int, bool, double> $6(%i, %b, 1.5);
  std::get<0>($6) -= %k;
  sim_obs(%t, $3.first + $5 + std::get<0>($6) + std::max($4, %i) + std::min(1 + 2, $4));
  std::variant<int, double> $7 = %i;
  sim_obs(%t, std::get<int>($7) + static_cast<int>($7.index()));
}''', 2)
add(CC, None, '''
{
  int $1[] = {4, %k, 2};
  auto [$2, $3, $4] = $1;
  auto& [$5, $6, $7] = $1;
  $5 = $2 + $3;
  $6 += $4;
  sim_obs(%t, $1[0] * $1[1] + $7);
  for (int $8 : {1, %k, %i}) { if ($8 == 2) continue; sim_obs(%t, $8); }
  std::array<std::array<int, 2>, 2> $9 = {{{1, 2}, {3, %k}}};
  sim_obs(%t, $9[1][%z & 1] + static_cast<int>($9.size()));
}''')
add(CC, None, '''
{
  std::atomic<int> $1{%i};
  $1++;
  $1 += %k;
  $1.fetch_sub(%i);
  int $2 = $1.load();
  if ($1.compare_exchange_strong($2, $2 * 2)) { sim_obs(%t, $1); }
  sim_obs(%t, $1 + %k);
}''')
add(CC, '''
struct $1 { int a = %k; int b[2] = {1, 2 + %k}; double c; };
static $1 $2(int x) { return {.a = x, .b = {x + 1, 3}, .c = 2.0}; }''', '''
{
  $1 $3 = $2(%i), $4{};
  $4.b[1] -= $3.b[0];
  $1* $5 = %b ? &$3 : &$4;
  $5->a += $5->b[%z & 1];
  (*$5).c *= 2;
  sim_obs(%t, $5->a + $4.b[1] + $2(%i).b[0]);
  sim_obsd(%t, $3.c + $4.c);
  auto* $6 = new $1[%k + 1];
  $6[1].a = %i;
  sim_obs(%t, $6[1].a + $6[0].b[1]);
  delete[] $6;
}''', 2)
add(CC, '''
namespace $1 {
struct $2 { int v; };
static int $3($2 a, int k) { return a.v * k + 1; }
static int $3(int a, int k) { return a - k; }
enum $4 { $5 = 3, $6 };
static int $7($4 e) { return e * 10; }
}''', '''
{
  $1::$2 $8{%i};
  sim_obs(%t, $3($8, %i) + $1::$3(%i, %k));
  sim_obs(%t, $7(%b ? $1::$5 : $1::$6));
  using namespace $1;
  sim_obs(%t, $7($5) + $6);
}''', 2)
add(CC, '''
template <typename T> class $1 {
 public:
  void push(T v) { if (n_ < 4) { d_[n_++] = v; } else { throw std::length_error("full"); } }
  T pop() { if (n_ == 0) throw std::out_of_range("empty"); return d_[--n_]; }
  bool empty() const { return n_ == 0; }
 private:
  T d_[4] = {};
  int n_ = 0;
};''', '''
{
  $1< <<int||long>> > $2;
  try {
    for (int $3 = 0; $3 < (%i & 7); $3++) $2.push($3 * %k);
    while (!$2.empty()) { if ($2.pop() > 6) break; }
    sim_obs(%t, $2.pop());
  } catch (const std::logic_error& e) { sim_obss(%t, e.what()); }
}''')
# ---------------------------------------------------------------------------------------------- C++17 sequenced operands
add(CC, None, '''
{
  int $1[4] = {1, 2, 3, 4}, $2 = %z & 1;
  auto $3 = [&]() { $2++; return $2 * %k; };
  $1[$2] = $3();
  sim_obs(%t, $1[0] + $1[1] * 10 + $1[2] * 100);
  $1[$2] += $3();
  sim_obs(%t, $1[2] + $2);
  sim_obs(%t, ($3() & 3) << ($2 & 3));
  int* $4 = $1;
  auto $5 = [&]() { $4++; return 5; };
  *$4 = $5();
  sim_obs(%t, $1[0] * 10 + $1[1]);
}''', 2)
add(CC, '''
struct $1 {
  int v[3];
  int n;
  int next() { n = (n + 1) % 3; return n + 10; }
};''', '''
{
  $1 $2{{1, 2, 3}, 0};
  $2.v[$2.n] = $2.next();
  $2.v[$2.n] ^= $2.next();
  sim_obs(%t, $2.v[0] * 100 + $2.v[1] * 10 + $2.v[2]);
  std::vector<int> $3 = {1, 2, 3};
  $3[$2.n] = $2.next();
  sim_obs(%t, $3[0] + $3[1] * 3 + $3[2] * 5);
}''')
# ---------------------------------------------------------------------------------------------- C
add(C, '''
static int $1(int n, ...) {
  va_list ap;
  int s = 0;
  va_start(ap, n);
  for (int i = 0; i < n; i++) s = s * 3 + va_arg(ap, int);
  va_end(ap);
  return s;
}''', 'sim_obs(%t, $1(%k, 1, %i, 3, %i) + $1(1, %i > 2));', 2)
add(C, '''
struct $1 { int a; int b[3]; struct { int c; } in; };
static struct $1 $2(int x) { struct $1 r = {.b = {[1] = x, [2] = 2 + 1}, .a = x * 2}; r.in.c = x - 1; return r; }''', '''
{
  struct $1 $3 = $2(%i), *$4 = &$3;
  $4->b[0] = %i;
  $4->in.c += $4->b[%z % 3];
  struct $1 $5 = (struct $1){.a = %i, .in = {%k}};
  $5 = %b ? *$4 : $5;
  sim_obs(%t, $3.a + $3.b[1] + $3.in.c + $5.a + $2(%i).b[2]);
}''', 2)
add(C, None, '''
{
  int $1 = ((%i) & 3) + 1;
  int $2[$1 + %k];
  for (int $3 = 0; $3 < $1; $3++) $2[$3] = $3 * $3 + %k;
  sim_obs(%t, $2[$1 - 1] + (int)(sizeof($2) / sizeof($2[0])));
}''', 2)
add(C, '''
static int $1(const void *a, const void *b) {
  int x = *(const int *)a, y = *(const int *)b;
  return (x > y) - (x < y);
}''', '''
{
  int $2[4] = {%i, %k, 3, %i};
  qsort($2, 4, sizeof($2[0]), $1);
  for (int $3 = 0; $3 < 4; $3++) sim_obs(%t, $2[$3]);
}''')
add(C, None, '''
{
  char $1[40];
  int $2 = snprintf($1, sizeof $1, "%%d:%%u:%%c", (%i) & 255, (%u) & 15u, 'a' + %z);
  sim_obss(%t, $1);
  sim_obs(%t, $2 + atoi($1) + (int)strtol("12abc", 0, 8 + %k));
}''', 2)
add(C, None, '''
{
  _Bool $1 = %i;
  bool $2 = %i > %z;
  uint8_t $3 = 250;
  int64_t $4 = INT_MAX;
  $3 += 10;
  $4 += %k;
  $1 = $1 && $2;
  $2 |= $1;
  size_t $5 = sizeof(int[2 + 1]) + %k;
  sim_obs(%t, $1 + $2 * 2 + $3 + (long)($4 & 1023) + (long)$5);
  if ($1 == $2) sim_obs(%t, !$1);
}''', 2)
add(C, '''
static const int $1[] = {1, 2 + 3, 1 << 4};
static int $2 = sizeof($1) / sizeof($1[0]) * 2;
enum { $3 = 3 + 4 };
struct $4 { int v[$3 - 4]; };''', '''
{
  static const int $5[2] = {3 + 1, $3 * 2};
  struct $4 $6 = {{1, 2, %k}};
  _Static_assert($3 == 7, "seven");
  sim_obs(%t, $1[%z % 3] + $2 * 0 + $5[1] + $6.v[2] + _Generic((1 + 2), int: %k, default: 0));
  int $7[2][$3 - 5];
  $7[1][1] = %i;
  sim_obs(%t, $7[1][1] + (int)sizeof $7);
}''')
add(C, '''
static int $1(int *p, int n) {
  int s = 0;
  while (n-- > 0) s += *p++;
  return s;
}
static int $2(const char *s) { int h = 5; while (*s) h = h * 33 ^ *s++; return h; }
static int $3(int x) { return x < 0 ? -x : x; }''', '''
{
  int $4[] = {1, %k, %i};
  sim_obs(%t, $1($4, 3) + $1((int[]){4, %k}, 2));
  sim_obs(%t, $2("key") & 1023);
  sim_obs(%t, $3(%i) + (%i, %k));
  int $5 = %i, *$6 = &$5, **$7 = &$6;
  **$7 += 2;
  (*$6)++;
  sim_obs(%t, $5 + ($6 == *$7) + !($7 == 0));
}''', 2)


# ---------------------------------------------------------------------------------------------- operands that do not return
add(C, """
static int $1(jmp_buf* b, int a) {
  if (%b[a]) longjmp(*b, <<1||(a & 3) + 1||2>>);
  return %i[a];
}""", """
{
  jmp_buf $2;
  volatile int $3 = %i;
  if (setjmp($2) == 0) {
    $3 = %i;
    <<sim_obs(%t, (long)(%b && $1(&$2, %i)));||if (%b OR $1(&$2, %i)) { sim_obs(%t, %l); }||$3 += $1(&$2, %i) + %i;||sim_obs(%t, (long)($1(&$2, %i) LSH 1));||while (%b && $1(&$2, $3) && $3 > 0) { $3--; if (sim_tick()) break; }>>
    sim_obs(%t, $3);
  } else {
    sim_obs(%t, $3 + %k);
  }
}""", 3)
add(C, """
static int $1(int a) {
  int r = a;
  <<if (%b[a] OR sim_stop(%z) > 30) r++;||r = %b[a] && (sim_stop(%z), %b[a]);||(%b[a]) OR (sim_exit(%k), 0);||r += (%b[a]) ? %i[a] : (int)sim_stop(%z);>>
  return r;
}""", 'sim_obs(%t, $1(%i));', 2)
add(CC, """
static int $1(int a) {
  int r = a;
  <<if (%b[a] OR sim_throw(%z) > 30) r++;||r = %b[a] && (sim_throw(%z), %b[a]);||(%b[a]) OR (throw a, false);||r += (%b[a]) ? %i[a] : throw 3;||r LSE (sim_throw(%z) & 3);||r = (%b[a] ? sim_stop(%z) : sim_throw(%z)) + a;>>
  return r;
}""", """
try {
  sim_obs(%t, $1(%i));
} catch (<<int $2||const int& $2||int $2>>) {
  sim_obs(%t, $2 + %i);
}""", 2)


# ---------------------------------------------------------------------------------------------- constants as template arguments and bounds
add(CC, """
enum $1 { $2 = -3, $3 = 2 };
template <int N> struct $4 { int f(int a) { return %i[a] + N; } };
template <$1 N> struct $5 { int f(int a) { return (N < 0) ? %i[a] : a - N; } };
template <typename T, T N> struct $6 { T f(T a) { return a + N; } };""", """
{
  const int $7 = <<2 - 5||-1||4||-(1 + 2)>>;
  $4< <<$7||-1||2 - 9||$7 - 1||$7 * 2||+3>> > $8;
  $5< <<$2||$3>> > $9;
  $6<int, <<-7||$7||3 - 4||(1 > 2)>> > $0;
  sim_obs(%t, $8.f(%i) + $9.f(%i) + $0.f(%i & 255));
}""", 2)
add(CC, """
template <long N, bool B, char C> struct $1 { long f(long a) { return B ? a + N : a - C; } };
template <typename T, unsigned N> struct $2 { T v[N]; T sum() { T s = 0; for (unsigned i = 0; i < N; i++) s += v[i]; return s; } };""", """
{
  const long $3 = <<-5||2 - 1||-1 + 3>>;
  const unsigned $4 = 1 + 2;
  $1< <<-4||$3||3>>, <<(3 > 2)||!true||false>>, <<'a'||-1||0>> > $5;
  $2<int, $4 + 1> $6 = {{%i, %i, %i}};
  int $7[$4 * 2] = {%i, %i};
  std::array<long, $4> $8{};
  $8[$4 - 1] = $5.f(%i);
  sim_obs(%t, (long)($8[2] + ($6.sum() & 255) + $7[1]));
}""")


# ---------------------------------------------------------------------------------------------- references into temporaries, x-values
add(CC, """
struct $1 {
  int v;
  int a[3];
  explicit $1(int x) : v(x), a{x, x + 1, x + 2} {}
  ~$1() { v = -77; a[0] = a[1] = a[2] = -78; }
  int* p() { return &v; }
  int& r() { return v; }
  int* begin() { return a; }
  $1& self() { return *this; }
  int& operator[](int i) { return a[i & 1]; }
};
static int& $2(int& x) { x += %k; return x; }
static int $3(const int& x, int y) { return x - y; }
static int* $4($1&& s) { return s.a; }""", """
sim_obs(%t, <<$2(*$1(%i).p())||$2($1(%i).p()[0])||$2($1(%i).r())||$2($1(%i)[%z])||$2($1(%i).self().v)||$2($1(%i).begin()[%k - 1 & 1])>>);
sim_obs(%t, <<*$1(%i).p()||$1(%i).p()[0]||$1(%i).r()||$1(%i).begin()[1]||*$4($1(%i))||$4($1(%i))[2]>> + %i);
sim_obs(%t, $3(<<*$1(%i).p()||$1(%i).r()||*$4($1(%i))||$1(%i).v||$1(%i).a[1]>>, %i));
sim_obs(%t, <<++*$1(%i).p()||$1(%i).r()++||$1(%i).p()[0]--||--$4($1(%i))[1]>>);
sim_obs(%t, (<<*$1(%i).p()||$1(%i).r()||$1(%i).begin()[1]>> <<=||+=||-=>> %i) + %i);
<<*$1(%i).p() += %i;||$1(%i).r()++;||(%b ? *$1(%i).p() : $1(%i).r()) = %i;||$2(%b ? *$1(%i).p() : $1(%i).r()) -= %i;>>""", 2)
add(CC, '', """
{
  int $1 = %i;
  sim_obs(%t, (long)std::string(20 + %k, 'q').data()[%z]);
  sim_obs(%t, (long)(std::vector<int>(30, %i).data()[%k] + *std::vector<int>(9, $1).begin()));
  sim_obs(%t, (long)(std::vector<int>{$1, %i, %k}.at(<<1||%k - %k + 2>>) + std::vector<int>{$1, %i}.back()));
  sim_obs(%t, (long)(std::string(17, 'x').front() + std::to_string(%i).c_str()[0]));
  sim_obs(%t, (long)(std::max({$1, %i, %k}) + std::min(%i, $1)));
}""", 2)
add(CC, """
static int $1(int&& r) { r += %k; return r; }
struct $2 {
  int v;
  int&& mv() { return std::move(v); }
  int get() && { return v + 1; }
};
static int&& $3(int& x) { return static_cast<int&&>(x); }""", """
{
  int $4 = %i, $5[2] = {%i, %i};
  $2 $6{%i};
  std::pair<int, long> $7(%i, %l);
  sim_obs(%t, $1(<<std::move($4)||$3($4)||static_cast<int&&>($4)||std::forward<int>($4)||std::move($6).v||$6.mv()||std::move($7).first||std::get<0>(std::move($7))||std::move($5)[%z & 1]||(%b ? std::move($4) : std::move($6.v))||(sim_tick(), std::move($4))>>));
  int&& $8 = <<std::move($4)||$6.mv()||std::move($6).v||$3($5[1])||(%b ? std::move($4) : $3($5[0]))>>;
  $8 += %i;
  sim_obs(%t, $4 ^ $5[0] ^ $5[1] ^ $6.v ^ $7.first);
  sim_obs(%t, std::move($4) + $3($5[0]) * %k + std::move($6).get());
}""", 2)

# ---------------------------------------------------------------------------------------------- expressions tied to their function
add(CC, """
static int $1(const char* f, int a) { sim_obss(%t, f); return (int)std::strlen(f) + a; }
static int $2(int a) {
  const char* n = <<__func__||__FUNCTION__||__func__>>;
  if ($1(__func__, a) > %k) { sim_obss(%t, n); }
  return $1(__func__, %i[a]) + (int)sizeof(__func__) + __func__[%z];
}""", 'sim_obs(%t, $2(%i) + $1("x", %i));')
add(CC, """
static int $1(jmp_buf* b, int a) {
  if (%b[a]) longjmp(*b, <<1||(a & 3) + 1||2>>);
  return %i[a];
}
static int $4(int a) {
  jmp_buf b;
  volatile int n = a;
  <<if (setjmp(b) == 0) { n = n + 1; n = $1(&b, n); } else { n = n - %k; }||switch (setjmp(b)) { case 0: n += 2; n = $1(&b, n) + %i[a]; break; case 1: n *= %k; break; default: n -= %k; }||if (!setjmp(b)) { n = %i[a]; $1(&b, n); }>>
  return n;
}""", 'sim_obs(%t, $4(%i));', 2)
add(CC, """
static int $1(char* p, int n) { for (int i = 0; i < n; i++) p[i] = (char)(%i[i,n] & 63); return p[n - 1]; }
static int $2(char* p, int n) { int s = 0; while (n-- > 0) s += p[n]; return s; }""", """
{
  char* $3 = nullptr;
  int $4 = 1 + (%i & 7);
  if (($3 = static_cast<char*>(alloca($4))) != nullptr) {
    sim_obs(%t, $1($3, $4));
    sim_obs(%t, %i + $1(static_cast<char*>(alloca(4)), 4));
    sim_obs(%t, $2($3, $4));
  }
}""")
add(CC, """
template <int N> static int $1(int x) noexcept(N > 3) { return %i[x] + N; }
template <typename T> struct $2 {
  T v;
  T f(T a) noexcept(sizeof(T) > 4) { return a + v; }
  ~$2() noexcept(sizeof(T) + 1 > 2) { sim_obs(%t, (long)v); }
};
static int $3(int x) noexcept(1 + 2 == 3) { return %i[x]; }""", """
{
  $2< <<int||long||short>> > $4{<<1||2>>};
  auto $5 = [](int x) noexcept(sizeof(int) == 4) { return %i[x]; };
  sim_obs(%t, (long)($1<%k>(%i) + $4.f(3) + $3(%i) + $5(%i)));
}""")
add(CC20, """
template <typename T> static int $1(T x) requires (sizeof(T) > 3) { return (int)(x + %i[]); }
template <typename T> static int $1(T x) requires (sizeof(T) <= 3) { return (int)(x - %i[]); }
template <typename T> requires std::integral<T> && (sizeof(T) > 1) static long $2(T x) {
  if constexpr (requires { x.foo; }) { return 1 + 2; } else { return 3 * (long)(x & 255); }
}
template <int N> struct $3 {
  int v;
  explicit(N > 3) $3(int x) : v(%i[x]) {}
  int h() requires (N + 1 > 2) { return v + %i[]; }
};
template <typename T> concept $4 = requires(T t) { { t + 1 } -> std::convertible_to<int>; };
static int $5($4 auto x) { return (int)x * %k; }""", """
{
  int $6 = %i;
  short $7 = (short)(%i & 255);
  const bool $8 = requires { $6 + 1; };
  $3<2> $9(%i);
  auto $0 = []<typename Q>(Q x) requires (sizeof(Q) > 2) { return x + 1; };
  sim_obs(%t, (long)($1($6) + $1($7) + $2($6) + $9.h() + $5($7) + $0(%i) + $8));
}""", 2)
add(CC20, """
struct $1 {
  struct promise_type {
    int v = 0;
    $1 get_return_object() { return $1{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_value(int x) { v = x + %k; }
    void unhandled_exception() { v = -1; }
  };
  std::coroutine_handle<promise_type> h;
};
struct $2 {
  int v;
  bool await_ready() { return %b[v]; }
  bool await_suspend(std::coroutine_handle<>) { return %b[v]; }
  int await_resume() { return v + 1; }
};
static $1 $3(int a, int n) {
  int x = co_await $2{a};
  for (int i = 0; i < n; i++) {
    int y = x + co_await $2{%i[a,i]};
    if (%b[x,i]) x += y;
    x += (co_await $2{i}) * 2;
    if (sim_tick()) break;
  }
  co_return <<x + a||co_await $2{x}||(co_await $2{x}) + %i[x,a]>>;
}""", """
{
  $1 $4 = $3(%i, <<%k||%z>>);
  while (!$4.h.done()) {
    sim_obs(%t, $4.h.promise().v + %i);
    $4.h.resume();
    if (sim_tick()) break;
  }
  sim_obs(%t, $4.h.promise().v);
  $4.h.destroy();
}""", 2)
add(CC20, """
struct $1 { int a = 1; int b{2}; long c = 3; auto operator<=>(const $1&) const = default; };
static int $2(int n) {
  int s = 0;
  for (int i = %k; int x : {1, n, %k}) { s += x * i; i++; }
  if (s > 3) [[likely]] { s -= %i[n]; }
  return s;
}
consteval int $3(int x) { return x * 2 + 1; }
constinit static int $4 = 3 + 4;
template <typename... A> static int $5(A... a) { return (a + ... + %k) + (0 + ... + (int)(a > 2)); }""", """
{
  $1 $6{.a = %i, .b = %i}, $7{.b = %i, .c = %l};
  sim_obs(%t, ($6 < $7) + ($6 == $7) * 2 + $2(%i) + $3(%k) + $4 + $5(%i, %i, %k));
  $4 = %i;
  auto $8 = [=, q = %i](auto x) mutable { q += (int)x; return q + $6.a; };
  sim_obs(%t, (long)($8(%i) + $8(%k)));
}""")

# Tokens that touch, statements separated from their semicolon, unevaluated and special contexts.
add(BOTH, """
#define $1
#define $2 -
static int $3(int a, int b) {
  if(a>b)return-a;else if(a==b)return~b;
  return(a+b)*2;
}
static int $4(int a) { int*p=&a;if(a>2)return*p;else--a;do--a;while(a>7);return!a; }
static int $5(int a) { switch(a){case(1):return+a;case-1:return a;default:return++a;} }""", """
{
  int $6 = %i;
  sim_obs(%t, $3($6, %i) + $4(%i) + $5(%i));
#if 1
  $6 += %i
#endif
  ;
  $6=$1(%i);$6=%i;if(%b){$6=%i;}$6+=%k;if(%b)$6=%i;else--$6;for(;0;)$6=%i;$6=$6 $2 %i;
  $6 = %i $1;$6=(%i)/*c*/;$1($6)=%i;$1 $6++;{$6=%i;}if(%b)$1--$6;do--$6;while(0);{if(%b)$6=%i $1;}sim_obs(%t,$6);
#ifndef $1
  $6 = %i;
#else
  $6 ^= %i
#endif
  // comment
  ;
  sim_obs(%t, $6)
#ifdef $2
  ;
#endif
}""", 2)
add(CC, "", """
{
  int $1 = %i;
  sim_obs(%t, noexcept($1 + %i) + (noexcept($1 = %i) ? 2 : 0) + (int)sizeof($1 + 1) + (int)alignof(int));
  decltype($1 + %l) $2 = {%l};
  int $3{%i}, $4[] = {%i, %i, {%i}};
  sim_obs(%t, $2 + $3 + $4[%z %% 3] + int{%i} + int(%u));
}""")
add(BOTH, "", """
{
  int $1 = (%u) %% 7u;
  int *$2 = (int *)__builtin_alloca(sizeof(int) * ($1 + 1));
  for (int $3 = 0; $3 <= $1; $3++) $2[$3] = $3 * %k;
  sim_obs(%t, $2[$1] + (__builtin_frame_address(0) != 0));
  sim_obs(%t, __builtin_expect(%i, 1 + 0) + __builtin_popcount(%u) + __builtin_bswap32(%u));
}""")
add(BOTH, "", """
{
  int $1 = %i, *$2 = 0, *$3 = &$1;
  const char *$4 = 0;
  $2 = %b ? $3 : 0;
  if ($2 == 0) $2 = <<$3||0 + &$1>>;
  sim_obs(%t, ($4 == 0) + !$4 + ($2 != 0) * 4 + *$2 + (%b ? *$3 : 0));
  $4 = "abc" + %z;
  sim_obs(%t, *$4 + $4[0] + 0["xyz"] + (%z)["hello"]);
}""")
add(CC, """
namespace $1 {
struct S { int v; operator int() const { return v; } S operator+(int k) const { return S{v + k}; } int get() const { return v; } };
enum E { A = 1, B = 2 };
static int pick(S s, int k) { return s.v + k; }
static int pick(E e, int k) { return (int)e * 10 + k; }
static int pick(S* s, int k) { return s->v * 2 + k; }
}""", """
{
  $1::S $2{%i};
  $1::E $3 = $1::A;
  sim_obs(%t, pick($2, %i) + pick($2 + %i, %k) + pick($3, %i) + pick(%b ? $1::A : $1::B, %k) + pick(&$2, %k));
  $3 = $1::B;
  sim_obs(%t, pick($3, $2.get() + %i) + pick(*&$2, +$2 + %k) + pick($1::S{%i}, -%k));
}""")
add(CC20, "", """
{
  auto $1 = [=](auto x) requires(sizeof(x) >= 2 + 2) { return x + %i; };
  auto $2 = []< typename T, int N = %k + 1>(T x) noexcept(noexcept(x + 1)) -> decltype(x + N) requires(N > 0) { return x * N; };
  sim_obs(%t, $1(%i) + $2(%i));
  if constexpr (requires(int x) { x + 1; }) sim_obs(%t, %i);
}""")

add(BOTH, """
#ifndef __cplusplus
#include <iso646.h>
#endif
static int $1(int a, int b) { return a and b or a not_eq b; }""", """
{
  int $2 = %i bitand %i, $3 = (%i bitor %k) xor $2;
  $2 or_eq $3 xor %i; $3 and_eq (%i);$2 xor_eq $3;
  if (%b and %b or $2 > $3) sim_obs(%t, $1($2, $3));
  int $4<:3:> = <%%1, 2, %k%%>;
  $4<:%z %% 3:> += (%b) and ($2 <= $3);
  sim_obs(%t, $2 + $3 + $4<:1:> + $4[%z %% 3]);
}""")
add(CC, "", """
{
  int $1 = %i;
  bool $2 = not (%b), $3 = not $2 and not ($1 > %k);
  $1 = compl $1 bitand compl(%i);
  if (not $3) sim_obs(%t, $1 + (not $2 ? %i : compl %i));
}""")
add(C, "static int $1(register int a, register long b) { a += %i[a,b:l]; b--; return a + (int)b; }", """
{
  register int $2 = %i;
  register struct { int m; struct { long n; } o; } $3 = {%i, {%l}};
  $2++; $2 += %i; ($2)--; $3.m += $2; $3.o.n++; ($3.o).n = $3.o.n & %l;
  sim_obs(%t, $1($2, $3.o.n) + $3.m + -$2);
}""")
add(BOTH, "typedef int $1 __attribute__((vector_size(16)));\ntypedef float $5 __attribute__((ext_vector_type(4)));", """
{
  $1 $2 = {%i, %i, %k, 4}, $3 = {1, 2, 3, %k};
  $2 += $3; $2[%z] = %i; $2[1]++; --$2[%z]; $2[0] *= $3[%z] + %i; $3 = -$3;
  $1 $4 = $2 < $3;
  sim_obs(%t, $2[0] + $2[%z] * 3 + $3[1] + $4[2]);
  sim_obs(%t, __builtin_shufflevector($2, $3, 1 + 0, 4, %k, 7)[%z]);
  $5 $6 = {%k, 2.5f, 3, 4};
  $6.x += %k; $6.y++; $6.xy = $6.yx;
  sim_obs(%t, (int)($6.x + $6.y * 2 - $6[%z]));
}""")
add(BOTH, "", """
{
  __extension__ int $1 = %i;
  double $2 = %k;
  sim_obs(%t, __extension__ ($1 + %i) + __extension__ $1 - (int)__real__ $2 + (int)__imag__ $2);
  sim_obs(%t, ({ int $3 = %i; $3 += %i; $3; }) + %k);
  sim_obs(%t, %k - ({ sim_obs(%t, $1); $1++; }));
}""")
add(BOTH, """
static int $1(int n) {
  int r = 0;
  r += ({ if (n > 4) return 50 + n; n + %i[n,r]; }) - 1;
  while (n-- > 0) {
    r += ({ if (n == 2) continue; if (r > 100) break; n * %k; }) + %i[n,r];
    int q = 3 - ({ if (r == 7) goto out; %i[n,r]; });
    r += q;
  }
out:
  return r;
}""", "sim_obs(%t, $1(%k) + $1(%i & 7));", 2)
add(BOTH, "static int $1(int v) { int r = v; __asm__(\"\" : \"+r\"(r) : \"i\"(%k + 1), \"r\"(v + %k)); return r; }", """
{
  int $2[4] __attribute__((aligned(8 + 8))) = {%i, %i};
  __builtin_prefetch($2, 0 + 0, %k - 1);
  int *$3 = (int *)__builtin_assume_aligned($2, 8 + 8);
  sim_obs(%t, $3[1] + (int)__builtin_object_size($2, 0 + 0) + $1(%i) + ((long)__builtin_frame_address(0) + %i == 1));
  int $4;
  sim_obs(%t, __builtin_add_overflow(%i, 1 + %k, &$4) + %i);
  sim_obs(%t, __atomic_fetch_add(&$4, %i, 4 + 1) + __builtin_offsetof(struct rec, fd) / (4 + 4));
  sim_obs(%t, __atomic_load_n(&$4, 4 + 1) + %k);
}""")
add(CC, "enum class $1 : unsigned char { A, B, C };\nenum $2 : short { $3 = 3 };\nstruct $4 { $1 e; $2 f; };", """
{
  $1 $5 = $1{2}, $6{1};
  $4 $7{$1{(0)}, $2{%k}}, $8[] = {{$1::B, $3}, {$1{1}}};
  $7.f = $2{$3}; $7.e = $1{2};
  sim_obs(%t, (int)$5 + (int)$6 * 10 + (int)$7.e * 100 + $7.f + (int)$8[1].e + (int)$8[0].f + ($5 == $1{2} ? %i : %i));
}""")
