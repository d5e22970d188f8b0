// Simulated descriptors, pipes, processes, clock and file-system calls.
#include "rt_int.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace rt {
namespace {
constexpr int64_t Epoch = 1700000000;
constexpr int MaxFds = 512;
struct ChildShared {
  int done; // 1 exec, 2 exit, 3 failure
  int code;
  int nfd;
  struct {
    int fd, file, cloexec;
  } fd[MaxFds];
  int sigpipeIgnored;
  int argc;
  char path[4096];
  char argv[65536];
  char msg[512];
  // data written by the child before exec
  int wfile;
  int wlen;
  char wbuf[4096];
};
ChildShared *CS;
std::vector<Pipe *> *pipes;
std::vector<File *> *files;
std::vector<Proc *> *children;
Proc *me;
int nextPid;
bool inRun() { return g_active && g_off == 0; }

struct Pending {
  Proc *p;
  ChildShared rep;
};
struct Kernel : Actor {
  std::vector<Pending *> q;
  bool ready() override { return !q.empty(); }
  void step() override;
};
Kernel *kernel;

FdEnt *ent(int fd) {
  if (fd < 0 || fd >= (int)me->fds.size() || !me->fds[fd].f)
    return nullptr;
  return &me->fds[fd];
}
void closeAt(Proc &p, int fd) {
  File *f = p.fds[fd].f;
  p.fds[fd] = FdEnt();
  fileUnref(f);
}
std::string where() {
  Thr *t = Cur;
  return t ? t->name + " at " +
                 stackText(t, t->depth > 0 && t->depth < 256
                                  ? t->pcs[t->depth - 1]
                                  : nullptr)
           : "?";
}
} // namespace

std::string here() { return where(); }

void ioReset() {
  pipes = new std::vector<Pipe *>();
  files = new std::vector<File *>();
  children = new std::vector<Proc *>();
  me = new Proc();
  me->pid = 4242;
  me->name = "nixd";
  nextPid = 5000;
  for (int i = 0; i < 3; ++i)
    fdInstall(*me, newFile(File::Null, nullptr));
  auto k = std::make_shared<Kernel>();
  k->name = "kernel";
  kernel = k.get();
  addActor(k);
}
Pipe *newPipe() {
  Pipe *p = new Pipe();
  p->id = (int)pipes->size();
  pipes->push_back(p);
  return p;
}
File *newFile(File::Kind k, Pipe *p) {
  File *f = new File();
  f->kind = k;
  f->pipe = p;
  f->id = (int)files->size();
  files->push_back(f);
  return f;
}
void fileRef(File *f) {
  if (f->refs++ == 0 && f->pipe)
    (f->kind == File::R ? f->pipe->readers : f->pipe->writers)++;
}
void fileUnref(File *f) {
  if (--f->refs == 0 && f->pipe)
    (f->kind == File::R ? f->pipe->readers : f->pipe->writers)--;
}
int fdInstall(Proc &p, File *f, int min, bool cloexec) {
  int fd = min;
  while (fd < (int)p.fds.size() && p.fds[fd].f)
    ++fd;
  if (fd >= (int)p.fds.size())
    p.fds.resize(fd + 1);
  p.fds[fd].f = f;
  p.fds[fd].cloexec = cloexec;
  fileRef(f);
  return fd;
}
Proc &self() { return *me; }
std::vector<Proc *> &procs() { return *children; }
Proc *procByPid(int pid) {
  for (Proc *p : *children)
    if (p->pid == pid)
      return p;
  return nullptr;
}
void procExit(Proc &p, int status) {
  InRt _;
  if (!p.alive)
    return;
  for (size_t i = 0; i < p.fds.size(); ++i)
    if (p.fds[i].f)
      closeAt(p, (int)i);
  p.alive = false;
  p.status = status;
  if (K.sigchldIgnored)
    p.reaped = true;
  else
    p.zombie = true;
  event("proc-exit", p.pid, status);
  logf("process %d (%s) ends, status 0x%x", p.pid, p.name.c_str(), status);
}

namespace {
void Kernel::step() {
  Pending *x = q.front();
  q.erase(q.begin());
  Proc &p = *x->p;
  if (!p.alive) { // killed before it got here
    delete x;
    return;
  }
  ChildShared &r = x->rep;
  if (r.wlen > 0 && r.wfile < (int)files->size()) {
    File *f = (*files)[r.wfile];
    if (f->kind == File::W && f->pipe && f->pipe->readers > 0)
      f->pipe->buf.append(r.wbuf, r.wlen);
  }
  if (r.done == 3)
    die(std::string("child:" + std::string(r.msg)).c_str(),
        "the new process failed before running its program: " +
            std::string(r.msg));
  std::vector<FdEnt> nf;
  if (r.done == 1) {
    for (int i = 0; i < r.nfd; ++i) {
      if (r.fd[i].cloexec)
        continue;
      if ((int)nf.size() <= r.fd[i].fd)
        nf.resize(r.fd[i].fd + 1);
      File *f = r.fd[i].file < (int)files->size()
                    ? (*files)[r.fd[i].file]
                    : newFile(File::Null, nullptr);
      nf[r.fd[i].fd].f = f;
      fileRef(f);
    }
  }
  for (size_t i = 0; i < p.fds.size(); ++i)
    if (p.fds[i].f)
      closeAt(p, (int)i);
  p.fds = std::move(nf);
  p.sigpipeIgnored = r.sigpipeIgnored;
  if (r.done == 1) {
    p.execed = true;
    event("exec", p.pid);
    std::string a;
    for (auto &s : p.argv)
      a += " " + s;
    logf("process %d executes%s", p.pid, a.c_str());
    if (H.onExec)
      H.onExec(p);
  } else {
    p.execed = false;
    logf("process %d exits before exec with %d", p.pid, r.code);
    if (H.onNoExec)
      H.onNoExec(p);
    procExit(p, (r.code & 0xff) << 8);
  }
  delete x;
}

[[noreturn]] void childReport(int how, int code) {
  ++g_off;
  CS->code = code;
  CS->sigpipeIgnored = me->sigpipeIgnored;
  CS->nfd = 0;
  for (size_t i = 0; i < me->fds.size() && CS->nfd < MaxFds; ++i)
    if (me->fds[i].f) {
      CS->fd[CS->nfd].fd = (int)i;
      CS->fd[CS->nfd].file = me->fds[i].f->id;
      CS->fd[CS->nfd].cloexec = me->fds[i].cloexec;
      CS->nfd++;
    }
  CS->done = how;
  rawExit(0);
}

int doExec(const char *path, char *const *argv) {
  if (!g_child)
    die("exec", "the server replaced itself: exec of " + std::string(path));
  InRt _;
  int n = 0;
  size_t off = 0;
  Proc tmp;
  for (char *const *a = argv; *a; ++a) {
    size_t l = strlen(*a) + 1;
    tmp.argv.push_back(*a);
    if (off + l <= sizeof CS->argv) {
      memcpy(CS->argv + off, *a, l);
      off += l;
      n++;
    }
  }
  tmp.name = path;
  CS->argc = n;
  snprintf(CS->path, sizeof CS->path, "%s", path);
  int e = H.execErrno ? H.execErrno(tmp) : 0;
  if (e) {
    errno = e;
    return -1;
  }
  childReport(1, 0);
}
} // namespace

void fatalInChild(const char *what) {
  snprintf(CS->msg, sizeof CS->msg, "%s", what);
  childReport(3, 0);
}

// ------------------------------------------------------------------ calls
namespace {
ssize_t doRead(int fd, void *buf, size_t n, void *) {
  if (g_child) {
    errno = EIO;
    return -1;
  }
  yieldPoint('y');
  ssize_t r;
  {
    InRt _;
    FdEnt *e = ent(fd);
    if (!e) {
      probe("read-bad-fd");
      errno = EBADF;
      return -1;
    }
    File *f = e->f;
    if (f->kind == File::Null)
      return 0;
    if (f->kind != File::R) {
      errno = EBADF;
      return -1;
    }
    if (K.eintr > 0 && fault("read-eintr", K.eintr)) {
      errno = EINTR;
      return -1;
    }
    Pipe *p = f->pipe;
    if (n == 0)
      return 0;
    if (p->buf.empty() && p->writers > 0) {
      if (f->nonblock) {
        errno = EAGAIN;
        return -1;
      }
      f->refs++; // the call holds the file
      while (p->buf.empty() && p->writers > 0)
        blockOn([p] { return !p->buf.empty() || p->writers == 0; },
                "data on a pipe", p);
      f->refs--;
      if (f->refs == 0 && f->pipe)
        f->pipe->readers--;
    }
    r = (ssize_t)std::min(n, p->buf.size());
    if (r > 1 && K.shortio > 0 && fault("short-read", K.shortio))
      r = 1 + pickn('r', (int)std::min<ssize_t>(r - 1, 4096));
    memcpy(buf, p->buf.data(), r);
    p->buf.erase(0, r);
    event("read", fd, r);
  }
  if (r > 0)
    accessRange(buf, r, true);
  return r;
}

ssize_t doWrite(int fd, const void *buf, size_t n) {
  if (g_child) {
    FdEnt *e = ent(fd);
    if (!e) {
      errno = EBADF;
      return -1;
    }
    CS->wfile = e->f->id;
    size_t k = std::min(n, sizeof CS->wbuf - CS->wlen);
    memcpy(CS->wbuf + CS->wlen, buf, k);
    CS->wlen += (int)k;
    return (ssize_t)n;
  }
  yieldPoint('y');
  accessRange(buf, n, false);
  InRt _;
  FdEnt *e = ent(fd);
  if (!e) {
    probe("write-bad-fd");
    errno = EBADF;
    return -1;
  }
  File *f = e->f;
  if (f->kind == File::Null)
    return (ssize_t)n;
  if (f->kind == File::Sink) {
    if (f->sink)
      f->sink->append((const char *)buf, n);
    if (Verbose) { // whole lines only
      static std::string line;
      line.append((const char *)buf, n);
      for (size_t e; (e = line.find('\n')) != line.npos;) {
        logf("to fd %d: %s", fd, line.substr(0, std::min<size_t>(e, 300)).c_str());
        line.erase(0, e + 1);
      }
    }
    return (ssize_t)n;
  }
  if (f->kind != File::W) {
    errno = EBADF;
    return -1;
  }
  if (n == 0)
    return 0;
  if (K.eintr > 0 && fault("write-eintr", K.eintr)) {
    errno = EINTR;
    return -1;
  }
  Pipe *p = f->pipe;
  size_t want = n;
  if (n > 1 && K.shortio > 0 && fault("short-write", K.shortio))
    want = 1 + pickn('r', (int)std::min<size_t>(n - 1, 4096));
  size_t done = 0;
  f->refs++;
  const char *b = (const char *)buf;
  ssize_t ret = -2;
  while (done < want) {
    if (p->readers == 0) {
      if (done) {
        ret = (ssize_t)done;
        break;
      }
      faultCount("write-no-reader");
      if (!me->sigpipeIgnored)
        die("crash:SIGPIPE", "a write to a closed pipe killed the server: " +
                                 where());
      errno = EPIPE;
      ret = -1;
      break;
    }
    size_t room = p->buf.size() < p->cap ? p->cap - p->buf.size() : 0;
    size_t need = want - done;
    size_t min = need <= 4096 ? need : 1; // up to PIPE_BUF is atomic
    if (min > p->cap)
      min = p->cap;
    if (room < min) {
      if (f->nonblock) {
        if (done)
          ret = (ssize_t)done;
        else {
          errno = EAGAIN;
          ret = -1;
        }
        break;
      }
      probe("pipe-full");
      if (done && K.eintr > 0 && fault("write-interrupted", K.eintr)) {
        ret = (ssize_t)done;
        break;
      }
      blockOn(
          [p, min] { return p->readers == 0 || p->cap >= p->buf.size() + min; },
          "room in a pipe", p);
      continue;
    }
    size_t k = std::min(room, need);
    if (need > 4096 && k > 4096 && K.pswitch > 0) {
      // long writes are not atomic
      size_t pages = (k + 4095) / 4096;
      int c = pickn('q', 3);
      if (c)
        k = std::min(k, c == 1 ? (size_t)4096 : pages / 2 * 4096 + 1);
    }
    p->buf.append(b + done, k);
    p->total += k;
    done += k;
    event("write", fd, k);
    if (done < want)
      yieldPoint('y');
  }
  f->refs--;
  if (f->refs == 0 && f->pipe)
    f->pipe->writers--;
  if (ret == -2)
    ret = (ssize_t)done;
  return ret;
}

short pollRev(int fd, short ev) {
  FdEnt *e = ent(fd);
  if (!e)
    return POLLNVAL;
  File *f = e->f;
  short r = 0;
  switch (f->kind) {
  case File::R:
    if (!f->pipe->buf.empty())
      r |= POLLIN;
    if (f->pipe->writers == 0) {
      r |= POLLHUP;
      if (f->pipe->sock)
        r |= POLLIN | (ev & POLLRDHUP);
    }
    break;
  case File::W:
    // as much room as an atomic write may need
    if (f->pipe->buf.size() + std::min<size_t>(4096, f->pipe->cap) <=
        f->pipe->cap)
      r |= POLLOUT;
    if (f->pipe->readers == 0)
      r |= POLLERR;
    break;
  case File::Null:
    r |= POLLIN | POLLOUT;
    break;
  case File::Sink:
    r |= POLLOUT;
    break;
  }
  return r & (ev | POLLHUP | POLLERR | POLLNVAL);
}

int doPoll(struct pollfd *fds, nfds_t n, int64_t timeout /* ns, -1 */) {
  if (g_child)
    return 0;
  yieldPoint('y');
  InRt _;
  if (K.eintr > 0 && fault("poll-eintr", K.eintr)) {
    errno = EINTR;
    return -1;
  }
  auto count = [fds, n] {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i)
      if (fds[i].fd >= 0 && pollRev(fds[i].fd, fds[i].events))
        c++;
    return c;
  };
  if (!count() && timeout != 0)
    blockOn([count] { return count() > 0; }, "descriptors to become ready",
            fds, timeout < 0 ? -1 : now_ + timeout);
  int c = 0;
  for (nfds_t i = 0; i < n; ++i) {
    fds[i].revents = fds[i].fd >= 0 ? pollRev(fds[i].fd, fds[i].events) : 0;
    c += fds[i].revents != 0;
  }
  if (c && K.eintr > 0 && fault("poll-eintr-late", K.eintr / 2)) {
    errno = EINTR;
    return -1;
  }
  event("poll", c);
  return c;
}

int doClose(int fd) {
  if (!g_child)
    yieldPoint('y');
  InRt _;
  if (!ent(fd)) {
    if (fd >= 0 && !g_child)
      die("double-close",
          "close of descriptor " + std::to_string(fd) +
              ", which is not open: " + where());
    errno = EBADF;
    return -1;
  }
  event("close", fd);
  logf("closes %d", fd);
  closeAt(*me, fd);
  return 0;
}

int doPipe(int *fds, bool cloexec) {
  InRt _;
  if (!g_child && K.pipefail > 0 && fault("pipe-emfile", K.pipefail)) {
    errno = EMFILE;
    return -1;
  }
  Pipe *p = newPipe();
  fds[0] = fdInstall(*me, newFile(File::R, p), 0, cloexec);
  fds[1] = fdInstall(*me, newFile(File::W, p), 0, cloexec);
  logf("pipe %d %d", fds[0], fds[1]);
  event("pipe", fds[0], fds[1]);
  return 0;
}
int doDup(int a, int min, int at, bool cloexec) {
  InRt _;
  FdEnt *e = ent(a);
  if (!e) {
    errno = EBADF;
    return -1;
  }
  File *f = e->f;
  if (at >= 0) {
    if (at == a)
      return at;
    fileRef(f);
    if (at < (int)me->fds.size() && me->fds[at].f)
      closeAt(*me, at);
    if (at >= (int)me->fds.size())
      me->fds.resize(at + 1);
    me->fds[at].f = f;
    me->fds[at].cloexec = cloexec;
    return at;
  }
  return fdInstall(*me, f, min, cloexec);
}

int doFork() {
  if (g_child)
    fatalInChild("fork in a child");
  yieldPoint('y');
  int pid;
  {
    InRt _;
    if (K.forkfail > 0 && fault("fork-eagain", K.forkfail)) {
      errno = EAGAIN;
      return -1;
    }
    memset(CS, 0, sizeof *CS);
    pid = nextPid++;
  }
  int savedOff = g_off;
  long r = rawcall(SYS_clone, SIGCHLD, 0, 0, 0, 0);
  if (r == 0) {
    g_child = true;
    g_off = savedOff;
    Cur->nextPreempt = ~0ull;
    Verbose = false;
    return 0;
  }
  InRt _;
  if (r < 0)
    die("simulator", "fork failed");
  int st = 0;
  rawcall(SYS_wait4, r, (long)&st, 0, 0);
  Proc *p = new Proc();
  p->pid = pid;
  p->forkedBy = Cur->id;
  p->tFork = now();
  p->fds = me->fds;
  for (auto &e : p->fds)
    if (e.f)
      fileRef(e.f);
  p->sigpipeIgnored = me->sigpipeIgnored;
  children->push_back(p);
  Pending *x = new Pending();
  x->p = p;
  memcpy(&x->rep, CS, sizeof *CS);
  if (CS->done == 0) {
    x->rep.done = 3;
    snprintf(x->rep.msg, sizeof x->rep.msg, "crash (wait status 0x%x)", st);
  }
  const char *a = x->rep.argv;
  for (int i = 0; i < x->rep.argc; ++i) {
    p->argv.push_back(a);
    a += strlen(a) + 1;
  }
  p->name = x->rep.path;
  kernel->q.push_back(x);
  event("fork", pid);
  logf("forks %d", pid);
  return pid;
}

int doWait(int pid, int *st, int opts) {
  if (g_child) {
    errno = ECHILD;
    return -1;
  }
  yieldPoint('y');
  InRt _;
  if (K.eintr > 0 && !(opts & WNOHANG) && fault("wait-eintr", K.eintr)) {
    errno = EINTR;
    return -1;
  }
  auto find = [pid](bool dead) -> Proc * {
    for (Proc *p : *children)
      if ((pid <= 0 || p->pid == pid) && !p->reaped && (!dead || p->zombie))
        return p;
    return nullptr;
  };
  for (;;) {
    if (Proc *p = find(true)) {
      p->zombie = false;
      p->reaped = true;
      if (st)
        *st = p->status;
      event("reap", p->pid, p->status);
      return p->pid;
    }
    if (!find(false)) {
      errno = ECHILD;
      return -1;
    }
    if (opts & WNOHANG)
      return 0;
    blockOn([find] { return find(true) || !find(false); }, "a child to end",
            nullptr);
  }
}

int doKill(int pid, int sig) {
  InRt _;
  Proc *p = procByPid(pid);
  if (!p) {
    if (pid == me->pid) {
      if (sig)
        die("crash:self-kill", "the server killed itself: " + where());
      return 0;
    }
    if (sig == 0 && H.pidAlive && H.pidAlive(pid)) {
      if (!H.pidForeign)
        return 0;
      faultCount("kill-eperm");
      errno = EPERM;
      return -1;
    }
    errno = ESRCH;
    return -1;
  }
  if (p->reaped) {
    errno = ESRCH;
    return -1;
  }
  if (sig && p->alive) {
    logf("sends signal %d to %d", sig, pid);
    procExit(*p, sig);
  }
  return 0;
}

[[noreturn]] void doExit(int code) {
  if (g_child)
    childReport(2, code);
  ++g_off;
  if (H.onExit)
    H.onExit(code);
  die("crash:exit", "the server called exit(" + std::to_string(code) + ")");
}

template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

void fillStat(struct stat *b, int fd) {
  memset(b, 0, sizeof *b);
  FdEnt *e = ent(fd);
  b->st_mode = e->f->kind == File::Null ? (S_IFCHR | 0666) : (S_IFIFO | 0600);
  b->st_blksize = 4096;
  b->st_nlink = 1;
}

// Resolves as the kernel does, one component at a time, asking the scenario
// for each: the file system may change between two questions.
int fsResolve(std::string path, bool followLast, unsigned &mode,
              std::string &out, bool wantReal) {
  if (path.empty())
    return ENOENT;
  if (path[0] != '/')
    path = "/" + path;
  std::string cur = "";
  std::vector<std::string> todo;
  auto push = [&todo](const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
      size_t j = s.find('/', i);
      if (j == std::string::npos)
        j = s.size();
      if (j > i)
        v.push_back(s.substr(i, j - i));
      i = j + 1;
    }
    todo.insert(todo.end(), v.rbegin(), v.rend());
  };
  push(path);
  bool trailing = path.size() > 1 && path.back() == '/';
  int links = 0;
  mode = S_IFDIR;
  while (!todo.empty()) {
    std::string c = todo.back();
    todo.pop_back();
    if ((mode & S_IFMT) != S_IFDIR)
      return ENOTDIR;
    if (c == ".")
      continue;
    if (c == "..") {
      size_t s = cur.rfind('/');
      cur = s == std::string::npos ? "" : cur.substr(0, s);
      mode = S_IFDIR;
      continue;
    }
    if (c.size() > 255)
      return ENAMETOOLONG;
    std::string nx = cur + "/" + c;
    if (nx.size() > 4096)
      return ENAMETOOLONG;
    int e = FS.stat(nx, false, mode);
    if (e)
      return e;
    if ((mode & S_IFMT) == S_IFLNK && (!todo.empty() || followLast || trailing)) {
      if (++links > 40)
        return ELOOP;
      std::string t;
      e = FS.readlink(nx, t);
      if (e)
        return e;
      if (!t.empty() && t[0] == '/')
        cur = "";
      push(t);
      mode = S_IFDIR;
      continue;
    }
    cur = nx;
  }
  if (trailing && (mode & S_IFMT) != S_IFDIR)
    return ENOTDIR;
  out = cur.empty() ? "/" : cur;
  (void)wantReal;
  return 0;
}
int fsStat(const char *path, struct stat *b, bool follow) {
  yieldPoint('y');
  InRt _;
  std::string p(path), out;
  unsigned mode = 0;
  int e = fsResolve(p, follow, mode, out, false);
  event("stat", e);
  logf("%s %s -> %s", follow ? "stat" : "lstat", path,
       e ? strerror(e) : "ok");
  if (e) {
    errno = e;
    return -1;
  }
  memset(b, 0, sizeof *b);
  b->st_mode = mode | 0644;
  b->st_nlink = 1;
  return 0;
}
} // namespace
} // namespace rt

using namespace rt;

extern "C" {
ssize_t read(int fd, void *b, size_t n) {
  if (inRun())
    return doRead(fd, b, n, nullptr);
  long r = rawcall(SYS_read, fd, (long)b, n);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (inRun())
    return doWrite(fd, b, n);
  long r = rawcall(SYS_write, fd, (long)b, n);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (inRun()) {
    if (fl & MSG_NOSIGNAL) {
      bool o = self().sigpipeIgnored;
      self().sigpipeIgnored = true;
      ssize_t r = doWrite(fd, b, n);
      self().sigpipeIgnored = o;
      return r;
    }
    return doWrite(fd, b, n);
  }
  return real<ssize_t (*)(int, const void *, size_t, int)>("send")(fd, b, n, fl);
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (inRun())
    return doRead(fd, b, n, nullptr);
  return real<ssize_t (*)(int, void *, size_t, int)>("recv")(fd, b, n, fl);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (inRun()) {
    for (int i = 0; i < c; ++i)
      if (v[i].iov_len)
        return doRead(fd, v[i].iov_base, v[i].iov_len, nullptr);
    return 0;
  }
  return real<ssize_t (*)(int, const struct iovec *, int)>("readv")(fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (inRun()) {
    std::string *all;
    {
      InRt _;
      all = new std::string();
      for (int i = 0; i < c; ++i)
        all->append((const char *)v[i].iov_base, v[i].iov_len);
    }
    ssize_t r = doWrite(fd, all->data(), all->size());
    InRt _;
    delete all;
    return r;
  }
  return real<ssize_t (*)(int, const struct iovec *, int)>("writev")(fd, v, c);
}
int close(int fd) {
  if (inRun())
    return doClose(fd);
  return (int)rawcall(SYS_close, fd) < 0 ? -1 : 0;
}
int poll(struct pollfd *f, nfds_t n, int to) {
  if (inRun())
    return doPoll(f, n, to < 0 ? -1 : to * MS);
  return real<int (*)(struct pollfd *, nfds_t, int)>("poll")(f, n, to);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts,
          const sigset_t *ss) {
  if (inRun())
    return doPoll(f, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1);
  return real<int (*)(struct pollfd *, nfds_t, const struct timespec *,
                      const sigset_t *)>("ppoll")(f, n, ts, ss);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  if (!inRun())
    return real<int (*)(int, fd_set *, fd_set *, fd_set *, struct timeval *)>(
        "select")(n, r, w, x, tv);
  struct pollfd p[64];
  int c = 0;
  for (int i = 0; i < n && c < 64; ++i) {
    short ev = 0;
    if (r && FD_ISSET(i, r))
      ev |= POLLIN;
    if (w && FD_ISSET(i, w))
      ev |= POLLOUT;
    if (ev)
      p[c++] = {i, ev, 0};
  }
  int k = doPoll(p, c, tv ? tv->tv_sec * SEC + tv->tv_usec * 1000 : -1);
  if (k < 0)
    return k;
  if (r)
    FD_ZERO(r);
  if (w)
    FD_ZERO(w);
  if (x)
    FD_ZERO(x);
  k = 0;
  for (int i = 0; i < c; ++i) {
    if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) {
      FD_SET(p[i].fd, r);
      k++;
    }
    if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) {
      FD_SET(p[i].fd, w);
      k++;
    }
  }
  return k;
}
int pipe(int *f) {
  if (inRun())
    return doPipe(f, false);
  return rawcall(SYS_pipe2, (long)f, 0) < 0 ? -1 : 0;
}
int pipe2(int *f, int fl) {
  if (inRun()) {
    int r = doPipe(f, fl & O_CLOEXEC);
    if (r == 0 && (fl & O_NONBLOCK)) {
      ent(f[0])->f->nonblock = true;
      ent(f[1])->f->nonblock = true;
    }
    return r;
  }
  return rawcall(SYS_pipe2, (long)f, fl) < 0 ? -1 : 0;
}
int dup(int a) {
  if (inRun())
    return doDup(a, 0, -1, false);
  return (int)rawcall(SYS_dup, a);
}
int dup2(int a, int b) {
  if (inRun())
    return doDup(a, 0, b, false);
  return (int)rawcall(SYS_dup2, a, b);
}
int dup3(int a, int b, int fl) {
  if (inRun())
    return doDup(a, 0, b, fl & O_CLOEXEC);
  return (int)rawcall(SYS_dup3, a, b, fl);
}
static int doFcntl(int fd, int cmd, long arg) {
  if (!inRun()) {
    long r = rawcall(SYS_fcntl, fd, cmd, arg);
    if (r < 0) {
      errno = (int)-r;
      return -1;
    }
    return (int)r;
  }
  InRt _;
  FdEnt *e = ent(fd);
  if (!e) {
    errno = EBADF;
    return -1;
  }
  switch (cmd) {
  case F_GETFD:
    return e->cloexec ? FD_CLOEXEC : 0;
  case F_SETFD:
    e->cloexec = arg & FD_CLOEXEC;
    return 0;
  case F_GETFL:
    return (e->f->kind == File::R ? O_RDONLY : O_WRONLY) |
           (e->f->nonblock ? O_NONBLOCK : 0);
  case F_SETFL:
    e->f->nonblock = arg & O_NONBLOCK;
    return 0;
  case F_DUPFD:
    return doDup(fd, (int)arg, -1, false);
  case F_DUPFD_CLOEXEC:
    return doDup(fd, (int)arg, -1, true);
  case 1032: // F_GETPIPE_SZ
    return e->f->pipe ? (int)e->f->pipe->cap : 0;
  case 1031: // F_SETPIPE_SZ
    if (e->f->pipe && (size_t)arg > e->f->pipe->cap)
      e->f->pipe->cap = arg;
    return e->f->pipe ? (int)e->f->pipe->cap : 0;
  }
  errno = EINVAL;
  return -1;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return doFcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return doFcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  long a = va_arg(ap, long);
  va_end(ap);
  if (inRun()) {
    FdEnt *e = ent(fd);
    if (e && req == 0x541B /*FIONREAD*/ && e->f->kind == File::R) {
      *(int *)a = (int)e->f->pipe->buf.size();
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  long r = rawcall(SYS_ioctl, fd, req, a);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return (int)r;
}
off_t lseek(int fd, off_t o, int w) {
  if (inRun()) {
    errno = ent(fd) ? ESPIPE : EBADF;
    return -1;
  }
  long r = rawcall(SYS_lseek, fd, o, w);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int isatty(int fd) {
  if (inRun()) {
    errno = ENOTTY;
    return 0;
  }
  return real<int (*)(int)>("isatty")(fd);
}
int fstat(int fd, struct stat *b) {
  if (inRun()) {
    InRt _;
    if (!ent(fd)) {
      errno = EBADF;
      return -1;
    }
    fillStat(b, fd);
    return 0;
  }
  long r = rawcall(SYS_fstat, fd, (long)b);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
static int statCommon(const char *p, struct stat *b, bool follow) {
  if (inRun() && FS.on && !g_child)
    return fsStat(p, b, follow);
  long r = rawcall(follow ? SYS_stat : SYS_lstat, (long)p, (long)b);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}
int stat(const char *p, struct stat *b) { return statCommon(p, b, true); }
int lstat(const char *p, struct stat *b) { return statCommon(p, b, false); }
int stat64(const char *p, struct stat64 *b) {
  return statCommon(p, (struct stat *)b, true);
}
int lstat64(const char *p, struct stat64 *b) {
  return statCommon(p, (struct stat *)b, false);
}
int access(const char *p, int m) {
  if (inRun() && FS.on) {
    struct stat b;
    return fsStat(p, &b, true);
  }
  long r = rawcall(SYS_access, (long)p, m);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return 0;
}
ssize_t readlink(const char *p, char *buf, size_t n) {
  if (inRun() && FS.on) {
    yieldPoint('y');
    InRt _;
    std::string out, t;
    unsigned mode = 0;
    int e = fsResolve(p, false, mode, out, false);
    if (!e && (mode & S_IFMT) != S_IFLNK)
      e = EINVAL;
    if (!e)
      e = FS.readlink(out, t);
    if (e) {
      errno = e;
      return -1;
    }
    size_t k = std::min(n, t.size());
    memcpy(buf, t.data(), k);
    return (ssize_t)k;
  }
  long r = rawcall(SYS_readlink, (long)p, (long)buf, n);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
char *realpath(const char *p, char *out) {
  if (inRun() && FS.on) {
    yieldPoint('y');
    std::string *res;
    int e;
    {
      InRt _;
      res = new std::string();
      unsigned mode = 0;
      e = fsResolve(p, true, mode, *res, true);
      event("realpath", e);
      logf("realpath %s -> %s", p, e ? strerror(e) : res->c_str());
    }
    char *r = nullptr;
    if (!e) {
      r = out ? out : (char *)malloc(res->size() + 1);
      memcpy(r, res->c_str(), res->size() + 1);
    }
    {
      InRt _;
      delete res;
    }
    if (e)
      errno = e;
    return r;
  }
  return real<char *(*)(const char *, char *)>("realpath")(p, out);
}
static int doOpen(const char *p, int fl, int mode) {
  if (inRun()) {
    InRt _;
    if (!strcmp(p, "/dev/null"))
      return fdInstall(self(), newFile(File::Null, nullptr), 0, fl & O_CLOEXEC);
    errno = ENOENT;
    return -1;
  }
  long r = rawcall(SYS_open, (long)p, fl, mode);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return (int)r;
}
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  return doOpen(p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  return doOpen(p, fl, m);
}
FILE *freopen64(const char *p, const char *m, FILE *f) {
  if (inRun()) {
    InRt _;
    int fd = f == stdin ? 0 : f == stdout ? 1 : 2;
    if (ent(fd))
      closeAt(self(), fd);
    if ((int)self().fds.size() <= fd)
      self().fds.resize(fd + 1);
    File *nf = newFile(File::Null, nullptr);
    self().fds[fd].f = nf;
    fileRef(nf);
    return f;
  }
  return real<FILE *(*)(const char *, const char *, FILE *)>("freopen64")(p, m,
                                                                         f);
}
FILE *freopen(const char *p, const char *m, FILE *f) {
  return freopen64(p, m, f);
}

pid_t fork() {
  if (inRun())
    return doFork();
  return real<pid_t (*)()>("fork")();
}
pid_t vfork() {
  if (inRun())
    return doFork();
  return real<pid_t (*)()>("fork")();
}
int execvp(const char *p, char *const *a) {
  if (inRun())
    return doExec(p, a);
  return real<int (*)(const char *, char *const *)>("execvp")(p, a);
}
int execv(const char *p, char *const *a) {
  if (inRun())
    return doExec(p, a);
  return real<int (*)(const char *, char *const *)>("execv")(p, a);
}
int execve(const char *p, char *const *a, char *const *e) {
  if (inRun())
    return doExec(p, a);
  return real<int (*)(const char *, char *const *, char *const *)>("execve")(
      p, a, e);
}
int execvpe(const char *p, char *const *a, char *const *e) {
  if (inRun())
    return doExec(p, a);
  errno = ENOSYS;
  return -1;
}
static int execList(const char *p, const char *a0, va_list ap) {
  const char *v[64];
  int n = 0;
  v[n++] = a0;
  while (n < 63 && v[n - 1])
    v[n++] = va_arg(ap, const char *);
  v[n] = nullptr;
  return doExec(p, (char *const *)v);
}
int execl(const char *p, const char *a0, ...) {
  va_list ap;
  va_start(ap, a0);
  int r = execList(p, a0, ap);
  va_end(ap);
  return r;
}
int execlp(const char *p, const char *a0, ...) {
  va_list ap;
  va_start(ap, a0);
  int r = execList(p, a0, ap);
  va_end(ap);
  return r;
}
pid_t waitpid(pid_t p, int *st, int o) {
  if (inRun())
    return doWait(p, st, o);
  long r = rawcall(SYS_wait4, p, (long)st, o, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return (int)r;
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
pid_t wait4(pid_t p, int *st, int o, struct rusage *) {
  return waitpid(p, st, o);
}
int kill(pid_t p, int s) {
  if (inRun())
    return doKill(p, s);
  return rawcall(SYS_kill, p, s) < 0 ? -1 : 0;
}
int raise(int s) {
  if (inRun()) {
    InRt _;
    die("crash:raise", "signal " + std::to_string(s) + ": " + where());
  }
  return (int)rawcall(SYS_tkill, rawcall(SYS_gettid), s);
}
pid_t getpid() { return g_active ? 4242 : (pid_t)rawcall(SYS_getpid); }
pid_t getppid() { return 1000; }

void exit(int c) {
  if (inRun())
    doExit(c);
  real<void (*)(int)>("exit")(c);
  for (;;)
    ;
}
void _exit(int c) {
  if (inRun())
    doExit(c);
  rawExit(c);
}
void _Exit(int c) {
  if (inRun())
    doExit(c);
  rawExit(c);
}
void quick_exit(int c) {
  if (inRun())
    doExit(c);
  rawExit(c);
}
void abort() {
  if (inRun()) {
    ++g_off;
    die("crash:SIGABRT", "abort called by " + where());
  }
  rawcall(SYS_write, 2, (long)"abort\n", 6);
  rawcall(SYS_kill, rawcall(SYS_getpid), SIGKILL);
  for (;;)
    ;
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  ++g_off;
  if (!g_active) {
    fprintf(stderr, "assertion %s failed at %s:%u\n", e, f, l);
    rawExit(70);
  }
  die("crash:assertion", std::string(e) + " in " + fn + ": " + where());
}

sighandler_t signal(int s, sighandler_t h) {
  if (inRun()) {
    if (s == SIGPIPE) {
      bool o = self().sigpipeIgnored;
      self().sigpipeIgnored = h != SIG_DFL;
      return o ? SIG_IGN : SIG_DFL;
    }
    if (s == SIGCHLD) {
      bool o = K.sigchldIgnored;
      K.sigchldIgnored = h == SIG_IGN;
      return o ? SIG_IGN : SIG_DFL;
    }
    return SIG_DFL;
  }
  return real<sighandler_t (*)(int, sighandler_t)>("signal")(s, h);
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (inRun()) {
    if (o) {
      memset(o, 0, sizeof *o);
      if (s == SIGPIPE && self().sigpipeIgnored)
        o->sa_handler = SIG_IGN;
      if (s == SIGCHLD && K.sigchldIgnored)
        o->sa_handler = SIG_IGN;
    }
    if (a && s == SIGCHLD)
      K.sigchldIgnored =
          a->sa_handler == SIG_IGN || (a->sa_flags & SA_NOCLDWAIT);
    if (a && s == SIGPIPE)
      self().sigpipeIgnored = a->sa_handler != SIG_DFL;
    return 0;
  }
  return real<int (*)(int, const struct sigaction *, struct sigaction *)>(
      "sigaction")(s, a, o);
}
int pthread_sigmask(int, const sigset_t *, sigset_t *o) {
  if (o)
    memset(o, 0, sizeof *o);
  return 0;
}
int sigprocmask(int, const sigset_t *, sigset_t *o) {
  if (o)
    memset(o, 0, sizeof *o);
  return 0;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (inRun()) {
    int64_t t = now() + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE
                             ? 0
                             : 0);
    ts->tv_sec = Epoch + t / SEC;
    ts->tv_nsec = t % SEC;
    return 0;
  }
  return (int)rawcall(SYS_clock_gettime, c, (long)ts);
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t)
    *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (inRun()) {
    if (g_child)
      return 0;
    InRt _;
    int64_t end = now() + r->tv_sec * SEC + r->tv_nsec;
    blockOn([] { return false; }, "a sleep to end", nullptr, end);
    return 0;
  }
  return (int)rawcall(SYS_nanosleep, (long)r, (long)rem);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r,
                    struct timespec *rem) {
  if (inRun()) {
    struct timespec d = *r;
    if (fl & TIMER_ABSTIME) {
      int64_t at = (r->tv_sec - Epoch) * SEC + r->tv_nsec - now();
      if (at <= 0)
        return 0;
      d.tv_sec = at / SEC;
      d.tv_nsec = at % SEC;
    }
    return nanosleep(&d, nullptr);
  }
  return (int)-rawcall(SYS_clock_nanosleep, c, fl, (long)r, (long)rem);
}
int usleep(useconds_t u) {
  struct timespec d = {u / 1000000, (long)(u % 1000000) * 1000};
  return nanosleep(&d, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec d = {s, 0};
  nanosleep(&d, nullptr);
  return 0;
}
long sysconf(int n) {
  if (g_active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF))
    return K.ncpu;
  return real<long (*)(int)>("sysconf")(n);
}
int get_nprocs() { return g_active ? K.ncpu : 1; }
} // extern C

namespace rt {
void ioInit() {
  CS = (ChildShared *)rawcall(SYS_mmap, 0, sizeof(ChildShared),
                              PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
} // namespace rt
