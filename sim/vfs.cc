#include "sim/vfs.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <set>

#include "sim/sim.h"

namespace vfs {
std::function<void(Op, const std::string&)> on_op;
namespace {
constexpr int kBase = 1000;
struct Ofd {
  P node;
  std::string path;
  int flags = 0;
  int64_t pos = 0;
  FILE* stream = nullptr;
  bool std_stream = false;
};
struct VDir {
  std::vector<dirent> ents;
  size_t pos = 0;
  int fd = -1;
  std::string path;
};
struct State {
  bool on = false;
  P root;
  std::string cwd;  // empty: real
  std::map<int, Ofd> fds;
  std::map<FILE*, int> files;
  std::set<VDir*> dirs;
  Plan plan;
  int nth_left = 0;
  std::vector<FaultRec> faults;
  uint64_t ops = 0, ino = 0;
  bool in_cb = false;
  int next_fd = kBase;
  P out, err;
};
State& S() {
  static State* s = new State;
  return *s;
}

template <class F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) \
  static auto real = Real<decltype(&::name)>(#name);

struct Runtime {  // the simulator's own work
  Runtime() { if (sim::runtime_hook) sim::runtime_hook(1); }
  ~Runtime() { if (sim::runtime_hook) sim::runtime_hook(-1); }
};

// Which errors an operation can meet.
int DrawErr(Op op) {
  static const int open_e[] = {EACCES, EIO, EMFILE, ENFILE, ENOMEM, ELOOP, ETXTBSY, ESTALE};
  static const int rd_e[] = {EIO, EISDIR, ESTALE, ENXIO, ETIMEDOUT};
  static const int wr_e[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE};
  static const int seek_e[] = {ESPIPE, EOVERFLOW, EINVAL};
  static const int close_e[] = {EIO, ENOSPC, EDQUOT};
  static const int stat_e[] = {EACCES, EIO, ELOOP, ENOMEM, EOVERFLOW, ESTALE, ENAMETOOLONG};
  static const int od_e[] = {EACCES, EIO, EMFILE, ENOMEM, ESTALE};
  static const int rdd_e[] = {EIO, ESTALE, EBADF};
  static const int meta_e[] = {EACCES, EIO, EROFS};
  auto pick = [](const int* a, size_t n) { return a[sim::Choose(static_cast<uint32_t>(n))]; };
#define PICK(a) pick(a, sizeof(a) / sizeof(a[0]))
  switch (op) {
    case kOpen: return PICK(open_e);
    case kRead: return PICK(rd_e);
    case kWrite: return PICK(wr_e);
    case kSeek: return PICK(seek_e);
    case kClose: return PICK(close_e);
    case kStat: return PICK(stat_e);
    case kOpenDir: return PICK(od_e);
    case kReadDir: return PICK(rdd_e);
    default: return PICK(meta_e);
  }
}

// Every simulated operation passes here. Returns errno of an injected fault or 0; *shorten: give a partial result.
int Gate(Op op, const std::string& path, bool* shorten = nullptr) {
  State& s = S();
  ++s.ops;
  if (on_op && !s.in_cb) {
    s.in_cb = true;
    on_op(op, path);
    s.in_cb = false;
  }
  if (s.plan.only && !s.plan.only(path)) return 0;
  const unsigned bit = 1u << op;
  if (s.plan.nth_mask & bit && s.nth_left > 0 && --s.nth_left == 0) {
    const int e = DrawErr(op);
    if (s.plan.sticky) s.nth_left = 1;
    s.faults.push_back({op, path, e});
    sim::Fault((std::string(OpName(op)) + " error").c_str());
    sim::Ev("fault %s %s errno %d", OpName(op), path.c_str(), e);
    return e;
  }
  if (s.plan.hard && (s.plan.hard_mask & bit) && sim::Chance(s.plan.hard, 1000)) {
    const int e = DrawErr(op);
    s.faults.push_back({op, path, e});
    sim::Fault((std::string(OpName(op)) + " error").c_str());
    sim::Ev("fault %s %s errno %d", OpName(op), path.c_str(), e);
    return e;
  }
  if ((op == kRead || op == kWrite) && s.plan.eintr && sim::Chance(s.plan.eintr, 1000)) {
    sim::Fault("interrupted call");
    s.faults.push_back({op, path, EINTR});
    return EINTR;
  }
  if (shorten && s.plan.shorten && sim::Chance(s.plan.shorten, 1000)) {
    *shorten = true;
    sim::Fault(op == kRead ? "short read" : "short write");
  }
  return 0;
}
void Organic(Op op, const std::string& path, int err) { S().faults.push_back({op, path, err}); }

// Absolute virtual path, or empty when the path is real.
std::string Virt(const char* path, int dirfd = AT_FDCWD) {
  State& s = S();
  if (!s.on || path == nullptr) return {};
  std::string p = path;
  if (p.empty()) return {};
  if (p[0] != '/') {
    if (dirfd != AT_FDCWD) {
      auto it = s.fds.find(dirfd);
      if (it == s.fds.end()) return {};
      return it->second.path + "/" + p;
    }
    if (s.cwd.empty()) return {};
    return s.cwd + "/" + p;
  }
  size_t i = 0;
  while (i + 1 < p.size() && p[i + 1] == '/') ++i;
  if (p.compare(i, 4, "/sim") == 0 && (p.size() == i + 4 || p[i + 4] == '/')) return p.substr(i);
  return {};
}

struct Res {
  P node;        // null: not found
  P parent;      // directory the last component lives in
  std::string leaf, canon;
  int err = 0;
};
Res Walk(const std::string& vpath, bool follow, int depth = 0) {
  Res r;
  if (depth > 40) { r.err = ELOOP; return r; }
  std::vector<std::pair<std::string, P>> stack;  // names from /sim
  P cur = S().root;
  std::vector<std::string> parts;
  std::string rest = vpath.size() > 4 ? vpath.substr(4) : "";
  size_t i = 0;
  while (i < rest.size()) {
    size_t j = rest.find('/', i);
    if (j == std::string::npos) j = rest.size();
    if (j > i) parts.push_back(rest.substr(i, j - i));
    i = j + 1;
  }
  const bool trailing = !rest.empty() && rest.back() == '/';
  auto canon = [&] {
    std::string c = "/sim";
    for (auto& e : stack) c += "/" + e.first;
    return c;
  };
  for (size_t k = 0; k < parts.size(); ++k) {
    const bool last = k + 1 == parts.size();
    if (cur->kind != kDir) { r.err = ENOTDIR; return r; }
    if (!(cur->mode & 0111)) { r.err = EACCES; Organic(kStat, vpath, EACCES); return r; }
    const std::string& n = parts[k];
    if (n == ".") continue;
    if (n == "..") {
      if (!stack.empty()) stack.pop_back();
      cur = stack.empty() ? S().root : stack.back().second;
      continue;
    }
    if (n.size() > 255) { r.err = ENAMETOOLONG; return r; }
    auto it = cur->kids.find(n);
    if (it == cur->kids.end()) {
      r.err = ENOENT;
      if (last) { r.parent = cur; r.leaf = n; r.canon = canon() + "/" + n; }
      return r;
    }
    P next = it->second;
    if (next->kind == kLink && (!last || follow || trailing)) {
      std::string t = next->data;
      std::string v = t.empty() ? "" : t[0] == '/' ? Virt(t.c_str()) : canon() + "/" + t;
      if (v.empty()) { r.err = ENOENT; return r; }
      for (size_t q = k + 1; q < parts.size(); ++q) v += "/" + parts[q];
      if (trailing) v += "/";
      return Walk(v, follow, depth + 1);
    }
    if (last) { r.parent = cur; r.leaf = n; }
    stack.push_back({n, next});
    cur = next;
  }
  if (trailing && cur->kind != kDir) { r.err = ENOTDIR; return r; }
  r.node = cur;
  r.canon = canon();
  return r;
}

void FillStat(const P& n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 99;
  st->st_ino = n->ino;
  st->st_nlink = 1;
  st->st_mode = n->mode | (n->kind == kFile ? S_IFREG : n->kind == kDir ? S_IFDIR : n->kind == kLink ? S_IFLNK : S_IFIFO);
  st->st_size = n->kind == kDir ? 4096 : static_cast<off_t>(n->data.size());
  st->st_blksize = 4096;
  int64_t sec = n->mtime_ns / 1000000000, ns = n->mtime_ns % 1000000000;
  if (ns < 0) { ns += 1000000000; --sec; }
  st->st_mtim.tv_sec = sec;
  st->st_mtim.tv_nsec = ns;
  st->st_atim = st->st_ctim = st->st_mtim;
}

int Errno(int e) { errno = e; return -1; }

int DoOpen(const std::string& v, int flags, unsigned mode) {
  Runtime rt;
  State& s = S();
  const bool dir_op = flags & O_DIRECTORY;
  if (int e = Gate(dir_op ? kOpenDir : kOpen, v)) return Errno(e);
  const bool nofollow = flags & O_NOFOLLOW;
  Res r = Walk(v, !nofollow);
  const int acc = flags & O_ACCMODE;
  if (!r.node) {
    if (r.err != ENOENT || !(flags & O_CREAT) || !r.parent) return Errno(r.err);
    if (!(r.parent->mode & 0222)) { Organic(kOpen, v, EACCES); return Errno(EACCES); }
    P n = std::make_shared<Node>();
    n->ino = ++s.ino;
    n->mode = mode & 0777;
    n->mtime_ns = sim::NowNs();
    r.parent->kids[r.leaf] = n;
    r.node = n;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return Errno(EEXIST);
    if (r.node->kind == kLink) return Errno(ELOOP);
    if (dir_op && r.node->kind != kDir) return Errno(ENOTDIR);
    if (r.node->kind == kDir && acc != O_RDONLY) return Errno(EISDIR);
    if (acc != O_WRONLY && !(r.node->mode & 0444)) { Organic(kOpen, v, EACCES); return Errno(EACCES); }
    if (acc != O_RDONLY && !(r.node->mode & 0222)) { Organic(kOpen, v, EACCES); return Errno(EACCES); }
    if ((flags & O_TRUNC) && r.node->kind == kFile && acc != O_RDONLY) {
      r.node->data.clear();
      r.node->mtime_ns = sim::NowNs();
      ++r.node->version;
    }
  }
  const int fd = s.next_fd++;
  Ofd o;
  o.node = r.node;
  o.path = r.canon.empty() ? v : r.canon;
  o.flags = flags;
  s.fds[fd] = o;
  return fd;
}

ssize_t DoRead(int fd, void* buf, size_t n, int64_t at = -1) {
  Runtime rt;
  State& s = S();
  Ofd& o = s.fds[fd];
  if ((o.flags & O_ACCMODE) == O_WRONLY) return Errno(EBADF);
  bool sh = false;
  if (int e = Gate(kRead, o.path, &sh)) return Errno(e);
  if (o.node->kind == kDir) { Organic(kRead, o.path, EISDIR); return Errno(EISDIR); }
  int64_t pos = at >= 0 ? at : o.pos;
  const auto& d = o.node->data;
  if (o.node->eio || (o.node->eio_at >= 0 && pos >= o.node->eio_at)) {
    Organic(kRead, o.path, EIO);
    sim::Fault("bad sector");
    return Errno(EIO);
  }
  size_t avail = pos < static_cast<int64_t>(d.size()) ? d.size() - static_cast<size_t>(pos) : 0;
  size_t k = std::min(n, avail);
  if (o.node->eio_at >= 0) k = std::min<size_t>(k, static_cast<size_t>(o.node->eio_at - pos));
  if (sh && k > 1) k = sim::Range(1, k - 1);
  memcpy(buf, d.data() + pos, k);
  if (at < 0) o.pos += static_cast<int64_t>(k);
  return static_cast<ssize_t>(k);
}

ssize_t DoWrite(int fd, const void* buf, size_t n) {
  Runtime rt;
  State& s = S();
  Ofd& o = s.fds[fd];
  if ((o.flags & O_ACCMODE) == O_RDONLY) return Errno(EBADF);
  bool sh = false;
  if (int e = Gate(kWrite, o.path, &sh)) return Errno(e);
  size_t k = n;
  if (sh && k > 1) k = sim::Range(1, k - 1);
  if (s.plan.disk_room >= 0 && n > 0 && !(s.plan.only && !s.plan.only(o.path))) {
    if (s.plan.disk_room == 0) {
      Organic(kWrite, o.path, ENOSPC);
      sim::Fault("disk full");
      return Errno(ENOSPC);
    }
    k = std::min<size_t>(k, static_cast<size_t>(s.plan.disk_room));
    s.plan.disk_room -= static_cast<int64_t>(k);
  }
  auto& d = o.node->data;
  if (o.flags & O_APPEND) o.pos = static_cast<int64_t>(d.size());
  if (d.size() < static_cast<size_t>(o.pos) + k) d.resize(static_cast<size_t>(o.pos) + k);
  d.replace(static_cast<size_t>(o.pos), k, static_cast<const char*>(buf), k);
  o.pos += static_cast<int64_t>(k);
  ++o.node->version;
  o.node->mtime_ns = sim::NowNs();
  return static_cast<ssize_t>(k);
}

int64_t DoSeek(int fd, int64_t off, int whence) {
  Runtime rt;
  State& s = S();
  Ofd& o = s.fds[fd];
  if (o.node->kind == kFifo) { Organic(kSeek, o.path, ESPIPE); return Errno(ESPIPE); }
  if (int e = Gate(kSeek, o.path)) return Errno(e);
  int64_t base = 0;
  if (whence == SEEK_CUR) base = o.pos;
  if (whence == SEEK_END) base = o.node->kind == kDir ? (s.plan.dir_seek_max ? LLONG_MAX : 4096) : static_cast<int64_t>(o.node->data.size());
  if (off < 0 ? base + off < 0 : base > LLONG_MAX - off) return Errno(EINVAL);
  return o.pos = base + off;
}

int DoClose(int fd) {
  Runtime rt;
  State& s = S();
  Ofd o = s.fds[fd];
  s.fds.erase(fd);
  return Gate(kClose, o.path) ? Errno(s.faults.back().err) : 0;
}

int DoFstat(int fd, struct stat* st) {
  Runtime rt;
  State& s = S();
  if (int e = Gate(kStat, s.fds[fd].path)) return Errno(e);
  FillStat(s.fds[fd].node, st);
  return 0;
}
int DoStat(const std::string& v, struct stat* st, bool follow) {
  Runtime rt;
  if (int e = Gate(kStat, v)) return Errno(e);
  Res r = Walk(v, follow);
  if (!r.node) return Errno(r.err);
  FillStat(r.node, st);
  return 0;
}

ssize_t CkRead(void* c, char* buf, size_t n) { return DoRead(static_cast<int>(reinterpret_cast<intptr_t>(c)), buf, n); }
ssize_t CkWrite(void* c, const char* buf, size_t n) {
  // As glibc's file streams: retry nothing, but continue after a partial write.
  const int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
  size_t done = 0;
  while (done < n) {
    const ssize_t k = DoWrite(fd, buf + done, n - done);
    if (k < 0) return static_cast<ssize_t>(done);  // cookie protocol: fewer bytes than asked is an error
    done += static_cast<size_t>(k);
  }
  return static_cast<ssize_t>(done);
}
int CkSeek(void* c, off64_t* off, int whence) {
  const int64_t p = DoSeek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, whence);
  if (p < 0) return -1;
  *off = p;
  return 0;
}
int CkClose(void* c) {
  const int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
  State& s = S();
  auto it = s.fds.find(fd);
  if (it == s.fds.end()) return Errno(EBADF);
  s.files.erase(it->second.stream);
  return DoClose(fd);
}
FILE* MakeFile(int fd, const char* mode) {
  State& s = S();
  cookie_io_functions_t io = {CkRead, CkWrite, CkSeek, CkClose};
  std::string m;
  for (const char* p = mode; *p; ++p)
    if (strchr("rwa+b", *p)) m += *p;
  FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), m.c_str(), io);
  if (f == nullptr) return nullptr;
  s.files[f] = fd;
  s.fds[fd].stream = f;
  return f;
}
int ModeFlags(const char* m) {
  int f = 0;
  const bool plus = strchr(m, '+') != nullptr;
  if (*m == 'r') f = plus ? O_RDWR : O_RDONLY;
  if (*m == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  if (*m == 'a') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr(m, 'x')) f |= O_EXCL;
  return f;
}
bool IsV(int fd) { return fd >= kBase && S().on && S().fds.count(fd); }
VDir* AsV(DIR* d) {
  VDir* v = reinterpret_cast<VDir*>(d);
  return S().dirs.count(v) ? v : nullptr;
}
VDir* OpenDirFd(int fd) {
  Runtime rt;
  State& s = S();
  Ofd& o = s.fds[fd];
  if (o.node->kind != kDir) { errno = ENOTDIR; return nullptr; }
  if (int e = Gate(kOpenDir, o.path)) { errno = e; return nullptr; }
  auto* v = new VDir;
  v->fd = fd;
  v->path = o.path;
  auto add = [&](const std::string& n, const P& node) {
    dirent e;
    memset(&e, 0, sizeof e);
    e.d_ino = node->ino;
    e.d_reclen = sizeof e;
    e.d_type = s.plan.unknown_dtype ? DT_UNKNOWN : node->kind == kDir ? DT_DIR : node->kind == kFile ? DT_REG : node->kind == kLink ? DT_LNK : DT_FIFO;
    strncpy(e.d_name, n.c_str(), sizeof e.d_name - 1);
    v->ents.push_back(e);
  };
  add(".", o.node);
  add("..", o.node);
  for (auto& [n, k] : o.node->kids) add(n, k);
  for (size_t i = v->ents.size(); i > 1; --i) {  // any order (0: as stored)
    const size_t j = i - 1 - sim::Choose(static_cast<uint32_t>(i));
    if (j != i - 1) std::swap(v->ents[i - 1], v->ents[j]);
  }
  s.dirs.insert(v);
  return v;
}
}  // namespace

const char* OpName(Op op) {
  static const char* n[] = {"open", "read", "write", "seek", "close", "stat", "opendir", "readdir", "closedir", "meta"};
  return n[op];
}
void Start() {
  Runtime rt;
  State& s = S();
  s.on = true;
  s.root = std::make_shared<Node>();
  s.root->kind = kDir;
  s.root->mode = 0755;
  s.root->ino = ++s.ino;
}
void Stop() { S().on = false; }
P Root() { return S().root; }
P Find(const std::string& path, bool follow) {
  Runtime rt;
  const size_t n = S().faults.size();
  P r = Walk(path, follow).node;
  S().faults.resize(n);
  return r;
}
P Add(const std::string& path, Kind kind, std::string data, unsigned mode) {
  Runtime rt;
  State& s = S();
  P cur = s.root;
  size_t i = 5;
  while (true) {
    size_t j = path.find('/', i);
    const std::string n = path.substr(i, j == std::string::npos ? std::string::npos : j - i);
    if (j == std::string::npos) {
      P node = std::make_shared<Node>();
      node->kind = kind;
      node->data = std::move(data);
      node->mode = kind == kDir ? (mode | 0111) : mode;
      node->ino = ++s.ino;
      node->mtime_ns = sim::NowNs();
      cur->kids[n] = node;
      return node;
    }
    auto& k = cur->kids[n];
    if (!k) {
      k = std::make_shared<Node>();
      k->kind = kDir;
      k->mode = 0755;
      k->ino = ++s.ino;
    }
    cur = k;
    i = j + 1;
  }
}
bool Remove(const std::string& path) {
  Runtime rt;
  const size_t n = S().faults.size();
  Res r = Walk(path, false);
  S().faults.resize(n);
  if (!r.node || !r.parent) return false;
  return r.parent->kids.erase(r.leaf) > 0;
}
void SetCwd(const std::string& p) { S().cwd = p; }
std::string Cwd() { return S().cwd; }
void SetPlan(const Plan& p) {
  S().plan = p;
  S().nth_left = p.nth;
}
Plan DrawPlan(Mood mood, unsigned hard_mask, int horizon) {
  Plan p;
  p.dir_seek_max = !sim::Chance(1, 3);
  p.unknown_dtype = sim::Chance(1, 4);
  p.hard_mask = p.nth_mask = hard_mask;
  switch (mood) {
    case Mood::kHealthy: break;
    case Mood::kBenign:
      p.shorten = static_cast<unsigned>(sim::Range(0, 3)) * 300;
      if (sim::Chance(1, 3)) p.eintr = 200;
      break;
    case Mood::kOneHard:
      p.nth = static_cast<int>(sim::Range(1, static_cast<uint64_t>(horizon)));
      p.sticky = sim::Chance(1, 4);
      if (sim::Chance(1, 2)) p.shorten = 500;
      break;
    case Mood::kHostile:
      p.hard = static_cast<unsigned>(sim::Range(1, 6)) * 40;
      p.shorten = static_cast<unsigned>(sim::Range(0, 3)) * 250;
      if (sim::Chance(1, 3)) p.eintr = 150;
      break;
  }
  return p;
}
const std::vector<FaultRec>& HardFaults() { return S().faults; }
void ClearFaults() { S().faults.clear(); }
uint64_t Ops() { return S().ops; }
int OpenFds() {
  int n = 0;
  for (auto& [fd, o] : S().fds) n += !o.std_stream;
  return n + static_cast<int>(S().dirs.size());
}
std::string FdList() {
  std::string r;
  for (auto& [fd, o] : S().fds)
    if (!o.std_stream) r += o.path + (o.stream ? " (stream) " : " (fd) ");
  for (VDir* d : S().dirs) r += d->path + " (dir) ";
  return r;
}

void InstallStd(const std::string& in, bool in_is_dir) {
  Runtime rt;
  State& s = S();
  auto make = [&](const char* name, int flags, const char* mode, P node) {
    node->ino = ++s.ino;
    const int fd = s.next_fd++;
    Ofd o;
    o.node = node;
    o.path = name;
    o.flags = flags;
    o.std_stream = true;
    s.fds[fd] = o;
    return MakeFile(fd, mode);
  };
  P ni = std::make_shared<Node>();
  ni->data = in;
  if (in_is_dir) ni->kind = kDir;
  s.out = std::make_shared<Node>();
  s.err = std::make_shared<Node>();
  FILE* fi = make("<stdin>", O_RDONLY, "r", ni);
  FILE* fo = make("<stdout>", O_WRONLY, "w", s.out);
  FILE* fe = make("<stderr>", O_WRONLY, "w", s.err);
  setvbuf(fe, nullptr, _IONBF, 0);
  stdin = fi;
  stdout = fo;
  stderr = fe;
  std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(fi));
  std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(fo));
  std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(fe));
  std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(fe));
}
void FlushStd() {
  std::cout.flush();
  std::cerr.flush();
  fflush(stdout);
  fflush(stderr);
}
const std::string& StdOut() { return S().out->data; }
const std::string& StdErr() { return S().err->data; }
}  // namespace vfs

using namespace vfs;
extern "C" {
#define MODE_ARG(flags)                          \
  unsigned mode = 0;                             \
  if ((flags) & (O_CREAT | O_TMPFILE)) {         \
    va_list ap;                                  \
    va_start(ap, flags);                         \
    mode = va_arg(ap, unsigned);                 \
    va_end(ap);                                  \
  }
int open(const char* p, int flags, ...) {
  MODE_ARG(flags)
  const std::string v = Virt(p);
  if (v.empty()) { REAL(open); return real(p, flags, mode); }
  return DoOpen(v, flags, mode);
}
int open64(const char* p, int flags, ...) {
  MODE_ARG(flags)
  return open(p, flags, mode);
}
int openat(int d, const char* p, int flags, ...) {
  MODE_ARG(flags)
  const std::string v = Virt(p, d);
  if (v.empty()) { REAL(openat); return real(d, p, flags, mode); }
  return DoOpen(v, flags, mode);
}
int openat64(int d, const char* p, int flags, ...) {
  MODE_ARG(flags)
  return openat(d, p, flags, mode);
}
int __openat_2(int d, const char* p, int flags) { return openat(d, p, flags); }
int __open_2(const char* p, int flags) { return open(p, flags); }
FILE* fopen(const char* p, const char* m) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(fopen); return real(p, m); }
  const int fd = DoOpen(v, ModeFlags(m), 0666);
  if (fd < 0) return nullptr;
  return MakeFile(fd, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) {
  if (!IsV(fd)) { REAL(fdopen); return real(fd, m); }
  if (int e = Gate(kOpen, S().fds[fd].path)) { errno = e; return nullptr; }
  return MakeFile(fd, m);
}
int fileno(FILE* f) {
  if (S().on) {
    auto it = S().files.find(f);
    if (it != S().files.end()) return it->second;
  }
  REAL(fileno);
  return real(f);
}
ssize_t read(int fd, void* b, size_t n) {
  if (IsV(fd)) return DoRead(fd, b, n);
  REAL(read);
  return real(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (IsV(fd)) return DoRead(fd, b, n, o);
  REAL(pread);
  return real(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) {
  if (IsV(fd)) return DoWrite(fd, b, n);
  REAL(write);
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (IsV(fd)) {
    std::string all;
    for (int i = 0; i < n; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    return DoWrite(fd, all.data(), all.size());
  }
  REAL(writev);
  return real(fd, v, n);
}
off_t lseek(int fd, off_t o, int w) {
  if (IsV(fd)) return DoSeek(fd, o, w);
  REAL(lseek);
  return real(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
  if (IsV(fd)) return DoClose(fd);
  REAL(close);
  return real(fd);
}
int fsync(int fd) {
  if (IsV(fd)) return Gate(kMeta, S().fds[fd].path) ? Errno(EIO) : 0;
  REAL(fsync);
  return real(fd);
}
int fstat(int fd, struct stat* st) {
  if (IsV(fd)) return DoFstat(fd, st);
  REAL(fstat);
  return real(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(const char* p, struct stat* st) {
  const std::string v = Virt(p);
  if (!v.empty()) return DoStat(v, st, true);
  REAL(stat);
  return real(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) {
  const std::string v = Virt(p);
  if (!v.empty()) return DoStat(v, st, false);
  REAL(lstat);
  return real(p, st);
}
int lstat64(const char* p, struct stat64* st) { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstatat(int d, const char* p, struct stat* st, int flags) {
  const std::string v = Virt(p, d);
  if (!v.empty()) return DoStat(v, st, !(flags & AT_SYMLINK_NOFOLLOW));
  REAL(fstatat);
  return real(d, p, st, flags);
}
int access(const char* p, int how) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(access); return real(p, how); }
  struct stat st;
  if (DoStat(v, &st, true)) return -1;
  if ((how & R_OK) && !(st.st_mode & 0444)) return Errno(EACCES);
  if ((how & W_OK) && !(st.st_mode & 0222)) return Errno(EACCES);
  if ((how & X_OK) && !(st.st_mode & 0111)) return Errno(EACCES);
  return 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (IsV(fd)) {
    if (req == FIONREAD) {
      Ofd& o = S().fds[fd];
      const int64_t left = static_cast<int64_t>(o.node->data.size()) - o.pos;
      *static_cast<int*>(arg) = static_cast<int>(std::max<int64_t>(0, left));
      return 0;
    }
    return Errno(ENOTTY);
  }
  REAL(ioctl);
  return real(fd, req, arg);
}
int poll(struct pollfd* f, nfds_t n, int t) {
  if (n == 1 && IsV(f->fd)) { f->revents = f->events; return 1; }
  REAL(poll);
  return real(f, n, t);
}
DIR* fdopendir(int fd) {
  if (IsV(fd)) return reinterpret_cast<DIR*>(OpenDirFd(fd));
  REAL(fdopendir);
  return real(fd);
}
DIR* opendir(const char* p) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(opendir); return real(p); }
  const int fd = DoOpen(v, O_RDONLY | O_DIRECTORY, 0);
  if (fd < 0) return nullptr;
  VDir* d = OpenDirFd(fd);
  if (!d) { const int e = errno; S().fds.erase(fd); errno = e; }
  return reinterpret_cast<DIR*>(d);
}
struct dirent* readdir(DIR* d) {
  if (VDir* v = AsV(d)) {
    Runtime rt;
    if (int e = Gate(kReadDir, v->path)) { errno = e; return nullptr; }
    return v->pos < v->ents.size() ? &v->ents[v->pos++] : nullptr;
  }
  REAL(readdir);
  return real(d);
}
struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
int closedir(DIR* d) {
  if (VDir* v = AsV(d)) {
    Runtime rt;
    S().fds.erase(v->fd);
    S().dirs.erase(v);
    Gate(kCloseDir, v->path);
    delete v;
    return 0;
  }
  REAL(closedir);
  return real(d);
}
int dirfd(DIR* d) {
  if (VDir* v = AsV(d)) return v->fd;
  REAL(dirfd);
  return real(d);
}
ssize_t readlink(const char* p, char* b, size_t n) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(readlink); return real(p, b, n); }
  if (int e = Gate(kMeta, v)) return Errno(e);
  Res r = Walk(v, false);
  if (!r.node) return Errno(r.err);
  if (r.node->kind != kLink) return Errno(EINVAL);
  const size_t k = std::min(n, r.node->data.size());
  memcpy(b, r.node->data.data(), k);
  return static_cast<ssize_t>(k);
}
char* realpath(const char* p, char* out) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(realpath); return real(p, out); }
  if (int e = Gate(kMeta, v)) { errno = e; return nullptr; }
  Res r = Walk(v, true);
  if (!r.node) { errno = r.err; return nullptr; }
  if (!out) return strdup(r.canon.c_str());
  strcpy(out, r.canon.c_str());
  return out;
}
char* getcwd(char* b, size_t n) {
  if (!S().on || S().cwd.empty()) { REAL(getcwd); return real(b, n); }
  if (int e = Gate(kMeta, S().cwd)) { errno = e; return nullptr; }
  const std::string& c = S().cwd;
  if (!b) return strdup(c.c_str());
  if (n < c.size() + 1) { errno = ERANGE; return nullptr; }
  memcpy(b, c.c_str(), c.size() + 1);
  return b;
}
int chdir(const char* p) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(chdir); return real(p); }
  if (int e = Gate(kMeta, v)) return Errno(e);
  Res r = Walk(v, true);
  if (!r.node) return Errno(r.err);
  if (r.node->kind != kDir) return Errno(ENOTDIR);
  S().cwd = r.canon;
  return 0;
}
int unlink(const char* p) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(unlink); return real(p); }
  if (int e = Gate(kMeta, v)) return Errno(e);
  Res r = Walk(v, false);
  if (!r.node) return Errno(r.err);
  if (r.node->kind == kDir) return Errno(EISDIR);
  r.parent->kids.erase(r.leaf);
  return 0;
}
int unlinkat(int d, const char* p, int flags) {
  const std::string v = Virt(p, d);
  if (v.empty()) { REAL(unlinkat); return real(d, p, flags); }
  if (int e = Gate(kMeta, v)) return Errno(e);
  Res r = Walk(v, false);
  if (!r.node || !r.parent) return Errno(r.err ? r.err : EBUSY);
  if (flags & AT_REMOVEDIR ? !r.node->kids.empty() : r.node->kind == kDir) return Errno(flags & AT_REMOVEDIR ? ENOTEMPTY : EISDIR);
  r.parent->kids.erase(r.leaf);
  return 0;
}
int remove(const char* p) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(remove); return real(p); }
  P n = vfs::Find(v, false);
  return n && n->kind == kDir ? unlinkat(AT_FDCWD, p, AT_REMOVEDIR) : unlink(p);
}
int rename(const char* a, const char* b) {
  const std::string va = Virt(a), vb = Virt(b);
  if (va.empty() && vb.empty()) { REAL(rename); return real(a, b); }
  if (va.empty() || vb.empty()) return Errno(EXDEV);
  if (int e = Gate(kMeta, va)) return Errno(e);
  Res ra = Walk(va, false), rb = Walk(vb, false);
  if (!ra.node || !ra.parent) return Errno(ra.err ? ra.err : EBUSY);
  if (!rb.parent) return Errno(rb.err ? rb.err : EBUSY);
  P n = ra.node;
  ra.parent->kids.erase(ra.leaf);
  rb.parent->kids[rb.leaf] = n;
  return 0;
}
int mkdir(const char* p, mode_t mode) {
  const std::string v = Virt(p);
  if (v.empty()) { REAL(mkdir); return real(p, mode); }
  if (int e = Gate(kMeta, v)) return Errno(e);
  Res r = Walk(v, false);
  if (r.node) return Errno(EEXIST);
  if (!r.parent) return Errno(r.err);
  P n = std::make_shared<Node>();
  n->kind = kDir;
  n->mode = mode & 0777;
  n->ino = ++S().ino;
  r.parent->kids[r.leaf] = n;
  return 0;
}
}  // extern "C"
