// dsim: deterministic system-call simulator for one dredd process.
//
// Reads jobs from stdin (line protocol), runs each under ptrace + seccomp
// RET_TRACE with ASLR off, and writes an event log to stdout. Every system
// call that touches the user's files (anything under ROOT) is a numbered
// decision point; the fault plan names decision points and what happens there.
// Entropy and pid come from the job, never from the machine. Mutating calls on
// paths outside ROOT are refused with EACCES and reported.
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using std::string;

struct Fault {
  string kind;   // err, errafter, short, kill, killafter, sig, full, sticky
  long arg = 0;
  bool fired = false;
};

struct Job {
  std::vector<string> argv, env;
  string cwd, root, errfile;
  uint64_t entropy = 1;
  long fake_pid = 4242;
  std::vector<string> watch;
  std::set<string> nofault;
  std::map<long, Fault> faults;
  long max_events = 200000;
  double timeout_s = 60;
  bool list = true;
};

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static string normalise(const string& p) {
  std::vector<string> parts;
  std::stringstream ss(p);
  string x;
  while (std::getline(ss, x, '/')) {
    if (x.empty() || x == ".") continue;
    if (x == "..") { if (!parts.empty()) parts.pop_back(); continue; }
    parts.push_back(x);
  }
  string r;
  for (auto& q : parts) r += "/" + q;
  return r.empty() ? "/" : r;
}

static string read_str(pid_t pid, unsigned long addr) {
  string r;
  char buf[256];
  while (r.size() < 8192) {
    size_t want = 256 - (addr % 256);  // stay within a page
    iovec l{buf, want}, m{reinterpret_cast<void*>(addr), want};
    ssize_t n = process_vm_readv(pid, &l, 1, &m, 1, 0);
    if (n <= 0) break;
    for (ssize_t i = 0; i < n; i++) {
      if (!buf[i]) return r;
      r += buf[i];
    }
    addr += n;
  }
  return r;
}

enum Cls { C_OPEN, C_OPENAT, C_CREAT, C_READ, C_WRITE, C_MMAP, C_RENAME, C_RENAMEAT, C_UNLINK, C_UNLINKAT, C_CLOSE,
           C_FDMUT, C_PATHMUT, C_PATHATMUT, C_STAT, C_STATAT, C_FSTAT, C_RANDOM, C_PID, C_DUP, C_FCNTL, C_LINK2, C_LINK2AT, C_SYMLINK, C_SYMLINKAT };
struct SysInfo { const char* name; Cls cls; };
static std::map<long, SysInfo> table = {
  {SYS_open, {"open", C_OPEN}}, {SYS_openat, {"openat", C_OPENAT}}, {SYS_creat, {"creat", C_CREAT}},
  {SYS_read, {"read", C_READ}}, {SYS_pread64, {"pread64", C_READ}}, {SYS_readv, {"readv", C_READ}}, {SYS_preadv, {"preadv", C_READ}},
  {SYS_write, {"write", C_WRITE}}, {SYS_pwrite64, {"pwrite64", C_WRITE}}, {SYS_writev, {"writev", C_WRITE}}, {SYS_pwritev, {"pwritev", C_WRITE}},
  {SYS_mmap, {"mmap", C_MMAP}}, {SYS_rename, {"rename", C_RENAME}}, {SYS_renameat, {"renameat", C_RENAMEAT}}, {SYS_renameat2, {"renameat2", C_RENAMEAT}},
  {SYS_unlink, {"unlink", C_UNLINK}}, {SYS_rmdir, {"rmdir", C_PATHMUT}}, {SYS_unlinkat, {"unlinkat", C_UNLINKAT}},
  {SYS_close, {"close", C_CLOSE}}, {SYS_fsync, {"fsync", C_FDMUT}}, {SYS_fdatasync, {"fdatasync", C_FDMUT}}, {SYS_ftruncate, {"ftruncate", C_FDMUT}},
  {SYS_fchmod, {"fchmod", C_FDMUT}}, {SYS_fchown, {"fchown", C_FDMUT}}, {SYS_fallocate, {"fallocate", C_FDMUT}},
  {SYS_truncate, {"truncate", C_PATHMUT}}, {SYS_mkdir, {"mkdir", C_PATHMUT}}, {SYS_chmod, {"chmod", C_PATHMUT}}, {SYS_chown, {"chown", C_PATHMUT}}, {SYS_lchown, {"lchown", C_PATHMUT}}, {SYS_utime, {"utime", C_PATHMUT}}, {SYS_utimes, {"utimes", C_PATHMUT}}, {SYS_mknod, {"mknod", C_PATHMUT}},
  {SYS_mkdirat, {"mkdirat", C_PATHATMUT}}, {SYS_fchmodat, {"fchmodat", C_PATHATMUT}}, {SYS_fchownat, {"fchownat", C_PATHATMUT}}, {SYS_utimensat, {"utimensat", C_PATHATMUT}},
  {SYS_stat, {"stat", C_STAT}}, {SYS_lstat, {"lstat", C_STAT}}, {SYS_access, {"access", C_STAT}}, {SYS_readlink, {"readlink", C_STAT}},
  {SYS_newfstatat, {"newfstatat", C_STATAT}}, {SYS_statx, {"statx", C_STATAT}}, {SYS_faccessat, {"faccessat", C_STATAT}}, {SYS_faccessat2, {"faccessat2", C_STATAT}}, {SYS_readlinkat, {"readlinkat", C_STATAT}},
  {SYS_fstat, {"fstat", C_FSTAT}}, {SYS_getrandom, {"getrandom", C_RANDOM}}, {SYS_getpid, {"getpid", C_PID}},
  {SYS_dup, {"dup", C_DUP}}, {SYS_dup2, {"dup2", C_DUP}}, {SYS_dup3, {"dup3", C_DUP}}, {SYS_fcntl, {"fcntl", C_FCNTL}},
  {SYS_link, {"link", C_LINK2}}, {SYS_linkat, {"linkat", C_LINK2AT}}, {SYS_symlink, {"symlink", C_SYMLINK}}, {SYS_symlinkat, {"symlinkat", C_SYMLINKAT}},
};

static void install_filter() {
  std::vector<sock_filter> f;
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
  size_t n = table.size();
  size_t i = 0;
  for (auto& e : table) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, static_cast<uint32_t>(e.first), static_cast<uint8_t>(n - i), 0));
    i++;
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE));
  sock_fprog prog{static_cast<unsigned short>(f.size()), f.data()};
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { perror("seccomp"); _exit(126); }
}

static string file_state(const string& path) {
  struct stat st;
  if (lstat(path.c_str(), &st)) return "absent";
  char b[96];
  if (S_ISLNK(st.st_mode)) {
    char t[512];
    ssize_t n = readlink(path.c_str(), t, sizeof t);
    snprintf(b, sizeof b, "link:%016llx", static_cast<unsigned long long>(fnv(t, n > 0 ? n : 0)));
    return b;
  }
  if (S_ISDIR(st.st_mode)) return "dir";
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return "unreadable";
  uint64_t h = 1469598103934665603ull;
  size_t tot = 0;
  static char buf[1 << 16];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) { h = fnv(buf, n, h); tot += n; }
  close(fd);
  snprintf(b, sizeof b, "%016llx:%zu", static_cast<unsigned long long>(h), tot);
  return b;
}

static pid_t g_child = -1;
static volatile bool g_timed_out = false;
static void on_alarm(int) { g_timed_out = true; if (g_child > 0) kill(g_child, SIGKILL); }

struct Runner {
  Job& j;
  string out;
  std::map<int, string> fds;  // fd -> rel path (under root)
  long idx = 0;
  uint64_t ent;
  long budget = -1;
  std::set<string> sticky;  // "name path" -> errno
  std::map<string, long> sticky_errno;
  std::map<string, string> last_state;
  uint64_t hash = 1469598103934665603ull;
  bool killed = false;
  pid_t pid = -1;

  explicit Runner(Job& job) : j(job), ent(job.entropy) {}

  void emit(const string& s) {
    hash = fnv(s.data(), s.size(), hash);
    out += s;
    out += '\n';
  }
  bool under(const string& abs, string& rel) {
    if (abs == j.root) { rel = "."; return true; }
    if (abs.size() > j.root.size() && abs.compare(0, j.root.size(), j.root) == 0 && abs[j.root.size()] == '/') {
      rel = abs.substr(j.root.size() + 1);
      return true;
    }
    return false;
  }
  string absat(long dirfd, const string& p) {
    if (!p.empty() && p[0] == '/') return normalise(p);
    if (static_cast<int>(dirfd) == AT_FDCWD) return normalise(j.cwd + "/" + p);
    auto it = fds.find(static_cast<int>(dirfd));
    if (it != fds.end()) return normalise(j.root + "/" + it->second + "/" + p);
    return normalise("/nowhere/" + p);
  }
  void check_watch() {
    for (auto& w : j.watch) {
      string st = file_state(j.root + "/" + w);
      if (last_state[w] != st) {
        last_state[w] = st;
        emit("state " + std::to_string(idx) + " " + w + " " + st);
      }
    }
  }

  void run() {
    for (auto& w : j.watch) last_state[w] = file_state(j.root + "/" + w);
    pid = fork();
    if (pid == 0) {
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      personality(ADDR_NO_RANDOMIZE);
      struct rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      if (chdir(j.cwd.c_str())) _exit(125);
      int e = open(j.errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      int nul = open("/dev/null", O_RDONLY);
      dup2(nul, 0); dup2(e, 1); dup2(e, 2);
      for (int i = 3; i < 64; i++) close(i);
      sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
      for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
      std::vector<char*> av, ev;
      for (auto& a : j.argv) av.push_back(const_cast<char*>(a.c_str()));
      av.push_back(nullptr);
      for (auto& a : j.env) ev.push_back(const_cast<char*>(a.c_str()));
      ev.push_back(nullptr);
      raise(SIGSTOP);
      install_filter();
      execve(av[0], av.data(), ev.data());
      _exit(127);
    }
    g_child = pid;
    g_timed_out = false;
    struct itimerval tv{};
    tv.it_value.tv_sec = static_cast<long>(j.timeout_s);
    setitimer(ITIMER_REAL, &tv, nullptr);
    int st;
    waitpid(pid, &st, 0);
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
    ptrace(PTRACE_CONT, pid, 0, 0);
    string status;
    while (true) {
      pid_t w = waitpid(pid, &st, 0);
      if (w < 0) { if (errno == EINTR) continue; break; }
      if (WIFEXITED(st)) { status = "exit " + std::to_string(WEXITSTATUS(st)); break; }
      if (WIFSIGNALED(st)) { status = "signal " + std::to_string(WTERMSIG(st)); break; }
      int sig = WSTOPSIG(st);
      int ev = st >> 16;
      if (sig == SIGTRAP && ev == PTRACE_EVENT_SECCOMP) {
        on_syscall();
        continue;
      }
      if (sig == SIGTRAP || sig == (SIGTRAP | 0x80)) { ptrace(PTRACE_CONT, pid, 0, 0); continue; }
      ptrace(PTRACE_CONT, pid, 0, sig);
    }
    struct itimerval off{};
    setitimer(ITIMER_REAL, &off, nullptr);
    g_child = -1;
    check_watch();
    if (g_timed_out) status = "timeout 0";
    emit("status " + status + (killed ? " injected-kill" : ""));
    int fired = 0;
    for (auto& f : j.faults) if (f.second.fired) { emit("fired " + std::to_string(f.first) + " " + f.second.kind + " " + std::to_string(f.second.arg)); fired++; }
    char b[64];
    snprintf(b, sizeof b, "hash %016llx events %ld", static_cast<unsigned long long>(hash), idx);
    out += b;
    out += '\n';
  }

  void skip(user_regs_struct& r, long ret) {
    r.orig_rax = static_cast<unsigned long long>(-1);
    r.rax = static_cast<unsigned long long>(ret);
    ptrace(PTRACE_SETREGS, pid, 0, &r);
    ptrace(PTRACE_CONT, pid, 0, 0);
  }
  // Run the call to its exit stop; returns false when the process is gone.
  bool finish(long& ret, int& pending) {
    pending = 0;
    ptrace(PTRACE_SYSCALL, pid, 0, 0);
    int st;
    while (true) {
      pid_t w = waitpid(pid, &st, 0);
      if (w < 0) { if (errno == EINTR) continue; return false; }
      break;
    }
    if (!WIFSTOPPED(st)) return false;
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, pid, 0, &r);
    ret = static_cast<long>(r.rax);
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) pending = WSTOPSIG(st);
    return true;
  }

  void on_syscall() {
    user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, pid, 0, &r)) return;
    long nr = static_cast<long>(r.orig_rax);
    auto it = table.find(nr);
    if (it == table.end()) { ptrace(PTRACE_CONT, pid, 0, 0); return; }
    const SysInfo& si = it->second;
    unsigned long a0 = r.rdi, a1 = r.rsi, a2 = r.rdx, a3 = r.r10, a4 = r.r8;
    string rel, rel2, args;
    bool user = false, mut = false, wants_path = false;
    string abs, abs2;
    switch (si.cls) {
      case C_RANDOM: {
        std::vector<unsigned char> b(a1 < 4096 ? a1 : 4096);
        for (auto& c : b) c = static_cast<unsigned char>(splitmix(ent));
        iovec l{b.data(), b.size()}, m{reinterpret_cast<void*>(a0), b.size()};
        process_vm_writev(pid, &l, 1, &m, 1, 0);
        skip(r, static_cast<long>(b.size()));
        return;
      }
      case C_PID: skip(r, j.fake_pid); return;
      case C_OPEN: abs = absat(AT_FDCWD, read_str(pid, a0)); wants_path = true; mut = (a1 & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; args = "fl=" + std::to_string(a1 & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND)); break;
      case C_OPENAT: abs = absat(static_cast<int>(a0), read_str(pid, a1)); wants_path = true; mut = (a2 & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; args = "fl=" + std::to_string(a2 & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND)); break;
      case C_CREAT: abs = absat(AT_FDCWD, read_str(pid, a0)); wants_path = true; mut = true; break;
      case C_RENAME: case C_LINK2: abs = absat(AT_FDCWD, read_str(pid, a0)); abs2 = absat(AT_FDCWD, read_str(pid, a1)); wants_path = true; mut = true; break;
      case C_RENAMEAT: case C_LINK2AT: abs = absat(static_cast<int>(a0), read_str(pid, a1)); abs2 = absat(static_cast<int>(a2), read_str(pid, a3)); wants_path = true; mut = true; break;
      case C_SYMLINK: abs = absat(AT_FDCWD, read_str(pid, a1)); wants_path = true; mut = true; break;
      case C_SYMLINKAT: abs = absat(static_cast<int>(a1), read_str(pid, a2)); wants_path = true; mut = true; break;
      case C_UNLINK: case C_PATHMUT: abs = absat(AT_FDCWD, read_str(pid, a0)); wants_path = true; mut = true; break;
      case C_UNLINKAT: case C_PATHATMUT: {
        string s = a1 ? read_str(pid, a1) : "";
        abs = s.empty() ? absat(static_cast<int>(a0), ".") : absat(static_cast<int>(a0), s); wants_path = true; mut = true; break;
      }
      case C_STAT: abs = absat(AT_FDCWD, read_str(pid, a0)); wants_path = true; break;
      case C_STATAT: {
        string s = read_str(pid, a1);
        if (s.empty()) { auto f = fds.find(static_cast<int>(a0)); if (f != fds.end()) { user = true; rel = f->second; } }
        else { abs = absat(static_cast<int>(a0), s); wants_path = true; }
        break;
      }
      case C_READ: case C_WRITE: case C_CLOSE: case C_FDMUT: case C_FSTAT: case C_DUP: case C_FCNTL: {
        auto f = fds.find(static_cast<int>(a0));
        if (f != fds.end()) { user = true; rel = f->second; }
        mut = si.cls == C_WRITE || si.cls == C_FDMUT;
        break;
      }
      case C_MMAP: {
        auto f = fds.find(static_cast<int>(a4));
        if (static_cast<int>(a4) >= 0 && f != fds.end()) { user = true; rel = f->second; mut = (a2 & 2) && (a3 & 1); }
        break;
      }
    }
    if (wants_path) {
      user = under(abs, rel);
      if (!abs2.empty()) {
        bool u2 = under(abs2, rel2);
        if (user != u2) user = false;  // crosses the boundary: treated as outside
      }
      if (!user && mut && abs != "/dev/null" && abs != "/dev/tty") {
        emit("outside " + string(si.name) + " " + abs + (abs2.empty() ? "" : " " + abs2));
        skip(r, -EACCES);
        return;
      }
    }
    if (!user) { ptrace(PTRACE_CONT, pid, 0, 0); return; }
    if (si.cls == C_DUP || si.cls == C_FCNTL) {
      long ret; int pend;
      long cmd = static_cast<long>(a1);
      if (!finish(ret, pend)) return;
      if (ret >= 0 && (si.cls == C_DUP || cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) fds[static_cast<int>(ret)] = rel;
      ptrace(PTRACE_CONT, pid, 0, pend);
      return;
    }
    // A decision point.
    long my = idx;
    if (my > j.max_events) { emit("runaway"); ptrace(PTRACE_KILL, pid, 0, 0); kill(pid, SIGKILL); return; }
    string head = string(si.name) + " " + rel + (rel2.empty() ? "" : " " + rel2) + (args.empty() ? "" : " " + args);
    size_t count = 0;
    if (si.cls == C_READ || si.cls == C_WRITE) {
      if (nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev) {
        std::vector<iovec> v(a2 < 64 ? a2 : 64);
        iovec l{v.data(), v.size() * sizeof(iovec)}, m{reinterpret_cast<void*>(a1), v.size() * sizeof(iovec)};
        process_vm_readv(pid, &l, 1, &m, 1, 0);
        for (auto& x : v) count += x.iov_len;
      } else {
        count = a2;
      }
      head += " n=" + std::to_string(count);
    }
    string key = string(si.name) + " " + rel;
    auto f = j.faults.find(my);
    long inject_err = 0, err_after = 0, shortn = -1;
    int sig = 0;
    bool kill_after = false;
    // A plan is drawn against the fault-free trace; after an earlier fault the same number can name another call.
    // A fault only happens where it makes sense: not on directories or link lookups, error-after only for close.
    if (f != j.faults.end()) {
      const string& kd = f->second.kind;
      const bool crash = kd.compare(0, 4, "kill") == 0 || kd == "sig";
      const bool odd = nr == SYS_readlink || nr == SYS_readlinkat || nr == SYS_unlink || nr == SYS_unlinkat || rel == "." || rel.compare(0, 4, "lib/") == 0 || j.nofault.count(rel);
      if (!crash && (odd || (kd == "errafter") != (si.cls == C_CLOSE) || (kd == "short" && si.cls != C_READ && si.cls != C_WRITE))) f = j.faults.end();
    }
    if (f != j.faults.end()) {
      Fault& F = f->second;
      F.fired = true;
      if (F.kind == "kill") {
        emit("ev " + std::to_string(my) + " " + head + " -> KILL");
        killed = true;
        check_watch();
        kill(pid, SIGKILL);
        idx++;
        return;
      }
      if (F.kind == "killafter") kill_after = true;
      if (F.kind == "err") inject_err = F.arg;
      if (F.kind == "errafter") err_after = F.arg;
      if (F.kind == "short") shortn = F.arg;
      if (F.kind == "sig") sig = static_cast<int>(F.arg);
      if (F.kind == "full") budget = F.arg;
      if (F.kind == "sticky") { sticky_errno[key] = F.arg; }
    }
    auto s = sticky_errno.find(key);
    if (s != sticky_errno.end()) inject_err = s->second;
    if (inject_err && si.cls == C_CLOSE) { err_after = inject_err; inject_err = 0; }
    if (!inject_err && budget >= 0 && si.cls == C_WRITE) {
      if (budget == 0 && count > 0) inject_err = ENOSPC;
      else if (static_cast<long>(count) > budget) shortn = budget;
    }
    if (inject_err) {
      emit("ev " + std::to_string(my) + " " + head + " -> ERR " + std::to_string(inject_err));
      idx++;
      skip(r, -inject_err);
      return;
    }
    if (sig) {
      emit("ev " + std::to_string(my) + " " + head + " -> SIG " + std::to_string(sig));
      idx++;
      killed = true;
      // Run the call, then deliver the signal at its exit.
      long ret; int pend;
      if (!finish(ret, pend)) return;
      track(si, a0, a4, ret, rel, rel2);
      check_watch();
      ptrace(PTRACE_CONT, pid, 0, sig);
      return;
    }
    bool was_short = false;
    if (shortn >= 0 && (si.cls == C_READ || si.cls == C_WRITE) && static_cast<size_t>(shortn) < count) {
      if (nr == SYS_read || nr == SYS_write || nr == SYS_pread64 || nr == SYS_pwrite64) {
        r.rdx = static_cast<unsigned long>(shortn);
        ptrace(PTRACE_SETREGS, pid, 0, &r);
        was_short = true;
      } else {
        // vectored: trim to a prefix by emulating the write ourselves
        std::vector<iovec> v(a2 < 64 ? a2 : 64);
        iovec l{v.data(), v.size() * sizeof(iovec)}, m{reinterpret_cast<void*>(a1), v.size() * sizeof(iovec)};
        process_vm_readv(pid, &l, 1, &m, 1, 0);
        if (nr == SYS_writev || nr == SYS_readv) {
          // shrink the iovec array in the tracee, restoring it afterwards
          std::vector<iovec> nv = v;
          size_t left = static_cast<size_t>(shortn);
          for (auto& x : nv) { if (x.iov_len > left) x.iov_len = left; left -= x.iov_len; }
          iovec l2{nv.data(), nv.size() * sizeof(iovec)};
          process_vm_writev(pid, &l2, 1, &m, 1, 0);
          long ret; int pend;
          bool ok = finish(ret, pend);
          iovec l3{v.data(), v.size() * sizeof(iovec)};
          process_vm_writev(pid, &l3, 1, &m, 1, 0);
          if (!ok) return;
          if (si.cls == C_WRITE && budget >= 0 && ret > 0) budget -= ret;
          emit("ev " + std::to_string(my) + " " + head + " -> SHORT " + std::to_string(ret));
          idx++;
          if (mut) check_watch();
          ptrace(PTRACE_CONT, pid, 0, pend);
          return;
        }
      }
    }
    long ret; int pend;
    if (!finish(ret, pend)) { idx++; return; }
    if (si.cls == C_WRITE && budget >= 0 && ret > 0) budget -= ret;
    track(si, a0, a4, ret, rel, rel2);
    string rs;
    if (ret < 0 && ret > -4096) rs = "E" + std::to_string(-ret);
    else if (si.cls == C_MMAP) rs = "ok";
    else rs = std::to_string(ret);
    if (si.cls == C_STAT || si.cls == C_STATAT) { if (ret > 0) rs = std::to_string(ret); }
    if (err_after) {
      user_regs_struct rr;
      ptrace(PTRACE_GETREGS, pid, 0, &rr);
      rr.rax = static_cast<unsigned long long>(-err_after);
      ptrace(PTRACE_SETREGS, pid, 0, &rr);
      rs += " ERRAFTER " + std::to_string(err_after);
    }
    emit("ev " + std::to_string(my) + " " + head + " -> " + (was_short ? "SHORT " : "") + rs);
    idx++;
    if (mut) check_watch();
    if (kill_after) {
      killed = true;
      emit("killafter");
      kill(pid, SIGKILL);
      return;
    }
    ptrace(PTRACE_CONT, pid, 0, pend);
  }
  void track(const SysInfo& si, unsigned long a0, unsigned long, long ret, const string& rel, const string&) {
    if ((si.cls == C_OPEN || si.cls == C_OPENAT || si.cls == C_CREAT) && ret >= 0) fds[static_cast<int>(ret)] = rel;
    if (si.cls == C_CLOSE) fds.erase(static_cast<int>(a0));
  }
};

int main() {
  struct sigaction sa{};
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  std::ios::sync_with_stdio(false);
  string line;
  Job j;
  while (std::getline(std::cin, line)) {
    size_t sp = line.find(' ');
    string k = line.substr(0, sp), v = sp == string::npos ? "" : line.substr(sp + 1);
    if (k == "job") j = Job();
    else if (k == "arg") j.argv.push_back(v);
    else if (k == "env") j.env.push_back(v);
    else if (k == "cwd") j.cwd = v;
    else if (k == "root") j.root = normalise(v);
    else if (k == "err") j.errfile = v;
    else if (k == "entropy") j.entropy = strtoull(v.c_str(), nullptr, 10);
    else if (k == "pid") j.fake_pid = atol(v.c_str());
    else if (k == "nofault") j.nofault.insert(v);
    else if (k == "watch") j.watch.push_back(v);
    else if (k == "timeout") j.timeout_s = atof(v.c_str());
    else if (k == "fault") {
      std::stringstream ss(v);
      long i; Fault f;
      ss >> i >> f.kind >> f.arg;
      j.faults[i] = f;
    } else if (k == "go") {
      Runner r(j);
      r.run();
      std::cout << r.out << "end" << std::endl;
    } else if (k == "quit") break;
  }
  return 0;
}
