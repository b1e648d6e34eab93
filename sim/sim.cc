#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#ifdef SIM_STDOUT_HOOK
#endif

namespace sim {
namespace {

constexpr uint32_t kMaxTape = 1u << 20;
constexpr uint32_t kMaxSpans = 1u << 16;
constexpr uint32_t kMaxLog = 1u << 20;
constexpr uint32_t kMaxCounters = 256;
constexpr uint32_t kMaxStates = 4096;

enum Status : uint32_t { kRunning = 0, kOk = 1, kFailed = 2, kTapeOverflow = 3 };

struct Counter {
  char kind;  // 'f' fault, 'p' probe
  char name[59];
  uint32_t n;
};

struct Shared {
  uint32_t status;
  uint64_t hash;
  uint64_t events;
  uint32_t nontrivial;
  int64_t sim_ns;  // total simulated time covered
  char cls[256];
  char msg[8192];
  uint32_t tape_len;
  uint32_t span_len;
  uint32_t log_len;
  uint32_t counters;
  uint32_t states;
  Counter counter[kMaxCounters];
  uint64_t state[kMaxStates];
  struct {
    uint32_t b, e;
    char name[24];
  } span[kMaxSpans];
  uint32_t tape[kMaxTape];
  char log[kMaxLog];
};

Shared* sh = nullptr;
// Run-local (child) state
uint64_t rng_s[4];
bool replaying = false;
const uint32_t* rtape = nullptr;
uint32_t rtape_len = 0;
int64_t now_ns = 0;
uint64_t run_index = 0;

uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t RngNext() {
  const uint64_t result = Rotl(rng_s[1] * 5, 7) * 9;
  const uint64_t t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0];
  rng_s[3] ^= rng_s[1];
  rng_s[1] ^= rng_s[2];
  rng_s[0] ^= rng_s[3];
  rng_s[2] ^= t;
  rng_s[3] = Rotl(rng_s[3], 45);
  return result;
}
void RngSeed(uint64_t s) {
  for (auto& v : rng_s) v = SplitMix(s);
}

[[noreturn]] void ExitNow(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

void Count(char kind, const char* name, int n) {
  for (uint32_t i = 0; i < sh->counters; ++i) {
    if (sh->counter[i].kind == kind && !strncmp(sh->counter[i].name, name, sizeof(Counter::name) - 1)) {
      sh->counter[i].n += n;
      return;
    }
  }
  if (sh->counters < kMaxCounters) {
    auto& c = sh->counter[sh->counters];
    c.kind = kind;
    snprintf(c.name, sizeof(c.name), "%s", name);
    c.n = n;
    ++sh->counters;
  }
}

void AppendLog(const char* s, size_t n) {
  if (sh->log_len + n + 1 < kMaxLog) {
    memcpy(sh->log + sh->log_len, s, n);
    sh->log_len += n;
    sh->log[sh->log_len++] = '\n';
  }
}

}  // namespace

void (*runtime_hook)(int) = nullptr;
namespace {
struct Rt {  // the simulator's own work is invisible to the simulated scheduler
  Rt() { if (runtime_hook) runtime_hook(1); }
  ~Rt() { if (runtime_hook) runtime_hook(-1); }
};
}  // namespace

uint64_t Hash64(std::string_view s, uint64_t h) {
  Rt rt;
  for (unsigned char c : s) {
    h ^= c;
    h *= 0x100000001b3ULL;
  }
  h ^= h >> 29;
  return h;
}

uint32_t ChooseIndexed(uint32_t n) {
  Rt rt;
  if (n <= 1) return 0;
  if (replaying) return Choose(n);
  sh->tape[sh->tape_len++] = static_cast<uint32_t>(run_index % n);
  return static_cast<uint32_t>(run_index % n);
}

uint32_t Choose(uint32_t n) {
  Rt rt;
  if (n <= 1) return 0;
  if (sh->tape_len >= kMaxTape) {
    sh->status = kTapeOverflow;
    ExitNow(0);
  }
  uint32_t v;
  if (replaying) {
    v = sh->tape_len < rtape_len ? rtape[sh->tape_len] % n : 0;
  } else {
    v = static_cast<uint32_t>((static_cast<unsigned __int128>(RngNext()) * n) >> 64);
  }
  sh->tape[sh->tape_len++] = v;
  return v;
}

uint64_t Range(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  const uint64_t n = hi - lo + 1;
  if (n != 0 && n <= 0xffffffffULL) return lo + Choose(static_cast<uint32_t>(n));
  const uint64_t r = Raw64();
  return n == 0 ? r : lo + r % n;
}

bool Chance(uint32_t num, uint32_t den) { return Choose(den) >= den - num; }

uint64_t Raw64() {
  const uint64_t hi = Choose(0xffffffffU);
  const uint64_t lo = Choose(0xffffffffU);
  return hi << 32 | lo;
}

uint64_t U64() {
  switch (Choose(6)) {
    case 0: return Choose(4);
    case 1: return Choose(1000);
    case 2: return ~uint64_t{0} - Choose(4);
    case 3: return (uint64_t{1} << Choose(64)) - Choose(2);
    default: return Raw64();
  }
}

size_t SizeNear(size_t unit, size_t max) {
  Rt rt;
  size_t v = 0;
  switch (Choose(8)) {
    case 0: v = 0; break;
    case 1: v = 1 + Choose(3); break;
    case 2: v = Choose(static_cast<uint32_t>(unit) + 1); break;
    case 3: v = unit - 1 + Choose(3); break;
    case 4: v = unit * (1 + Choose(4)) + Choose(3); if (v) --v; break;
    case 5: v = Choose(static_cast<uint32_t>(unit) * 4); break;
    case 6: v = Choose(static_cast<uint32_t>(std::min<size_t>(max, 1u << 30)) + 1); break;
    default: v = unit * Choose(static_cast<uint32_t>(std::max<size_t>(1, max / unit)) + 1); break;
  }
  return std::min(v, max);
}

std::string Blob(size_t len) {
  Rt rt;
  std::string out(len, '\0');
  const uint32_t kind = Choose(5);
  if (kind == 0) return out;
  if (kind == 1) {
    out.assign(len, '\xff');
    return out;
  }
  if (kind == 2) {
    const uint32_t start = Choose(256);
    for (size_t i = 0; i < len; ++i) out[i] = static_cast<char>(start + i);
    return out;
  }
  uint64_t s = Choose(0xffffffffU);
  size_t i = 0;
  while (i < len) {
    uint64_t v = SplitMix(s);
    for (int k = 0; k < 8 && i < len; ++k, v >>= 8) out[i++] = static_cast<char>(v);
  }
  return out;
}

Span::Span(const char* name) : idx_(~0u) {
  Rt rt;
  if (sh->span_len < kMaxSpans) {
    idx_ = sh->span_len++;
    sh->span[idx_].b = sh->tape_len;
    sh->span[idx_].e = ~0u;
    snprintf(sh->span[idx_].name, sizeof(sh->span[idx_].name), "%s", name);
  }
}
Span::~Span() {
  if (idx_ != ~0u) sh->span[idx_].e = sh->tape_len;
}

void Ev(const char* fmt, ...) {
  Rt rt;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n >= static_cast<int>(sizeof(buf))) n = sizeof(buf) - 1;
  sh->hash = Hash64(std::string_view(buf, n), sh->hash);
  ++sh->events;
  AppendLog(buf, n);
}

void Note(const char* fmt, ...) {
  Rt rt;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n >= static_cast<int>(sizeof(buf))) n = sizeof(buf) - 1;
  AppendLog(buf, n);
}

void Fault(const char* kind, int n) {
  Rt rt;
  Count('f', kind, n);
  Ev("  [fault] %s", kind);
}
void Probe(const char* name, int n) { Rt rt; Count('p', name, n); }
void State(uint64_t h) {
  Rt rt;
  if (sh->states < kMaxStates) sh->state[sh->states++] = h;
}
void NonTrivial() { sh->nontrivial = 1; }
void Advance(int64_t ns) {
  now_ns += ns;
  sh->sim_ns += ns < 0 ? -ns : ns;
}
int64_t NowNs() { return now_ns; }
void SetNowNs(int64_t ns) { now_ns = ns; }
bool Replaying() { return replaying; }

void Fail(const char* cls, const char* fmt, ...) {
  Rt rt;
  if (sh->status == kRunning) {
    sh->status = kFailed;
    snprintf(sh->cls, sizeof(sh->cls), "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    sh->hash = Hash64(cls, sh->hash);
  }
  ExitNow(0);
}

void Done() {
  if (sh->status == kRunning) sh->status = kOk;
  ExitNow(0);
}

std::string Hex(std::string_view s, size_t max) {
  Rt rt;
  static const char* d = "0123456789abcdef";
  std::string out;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    out += d[static_cast<unsigned char>(s[i]) >> 4];
    out += d[static_cast<unsigned char>(s[i]) & 15];
  }
  if (s.size() > max) out += "...";
  return out;
}

std::string Quote(std::string_view s, size_t max) {
  Rt rt;
  std::string out = "\"";
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    const unsigned char c = s[i];
    if (c == '\n') out += "\\n";
    else if (c == '\\' || c == '"') { out += '\\'; out += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); out += b; }
    else out += static_cast<char>(c);
  }
  out += '"';
  if (s.size() > max) out += "...+" + std::to_string(s.size() - max);
  return out;
}

namespace {

// ---------------------------------------------------------------- driver (parent process)

struct Outcome {
  std::string cls;  // empty: ok
  std::string msg;
  uint64_t hash = 0;
};

int cpu_limit_s = 10;
int wall_limit_s = 60;
int err_fd = -1;
bool verbose = false;

void OnVtAlarm(int) {
  if (sh->status == kRunning) {
    sh->status = kFailed;
    snprintf(sh->cls, sizeof(sh->cls), "hang:cpu");
    snprintf(sh->msg, sizeof(sh->msg), "run used more than %d s CPU time", cpu_limit_s);
  }
  ExitNow(0);
}

std::string CrashClass(const std::string& err, int st) {
  std::string cls;
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += strlen("ERROR: AddressSanitizer: ");
    size_t e = err.find_first_of(" \n", p);
    std::string k = err.substr(p, e - p);
    if (k == "attempting") k = err.substr(p, std::min(err.find(" on ", p), err.find('\n', p)) - p);
    return "crash:asan:" + k;
  }
  p = err.find("runtime error: ");
  if (p != std::string::npos) {
    std::string k = err.substr(p + 15, err.find('\n', p) - p - 15);
    // strip data: digits and hex
    std::string out;
    for (char c : k) {
      if (c >= '0' && c <= '9') { if (out.empty() || out.back() != '#') out += '#'; }
      else out += c;
    }
    return "crash:ubsan:" + out.substr(0, 60);
  }
  if (WIFSIGNALED(st)) {
    if (err.find("terminate called") != std::string::npos) return "crash:terminate";
    if (err.find("pure virtual") != std::string::npos) return "crash:purevirtual";
    return "crash:signal:" + std::to_string(WTERMSIG(st));
  }
  return "crash:exit:" + std::to_string(WEXITSTATUS(st));
}

std::string ReadErr() {
  std::string s;
  char buf[65536];
  off_t off = 0;
  ssize_t n;
  while ((n = pread(err_fd, buf, sizeof(buf), off)) > 0) {
    s.append(buf, n);
    off += n;
  }
  return s;
}

Outcome RunOnce(uint64_t seed, const std::vector<uint32_t>* tape) {
  sh->status = kRunning;
  sh->hash = 0xcbf29ce484222325ULL;
  sh->events = 0;
  sh->nontrivial = 0;
  sh->sim_ns = 0;
  sh->cls[0] = sh->msg[0] = 0;
  sh->tape_len = sh->span_len = sh->log_len = sh->counters = sh->states = 0;
  if (err_fd >= 0 && lseek(err_fd, 0, SEEK_END) != 0) {
    (void)!ftruncate(err_fd, 0);
    lseek(err_fd, 0, SEEK_SET);
  }
  fflush(stdout);
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose) dup2(err_fd, 2);
    struct sigaction sa{};
    sa.sa_handler = OnVtAlarm;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = cpu_limit_s;
    setitimer(ITIMER_PROF, &it, nullptr);
    if (tape) {
      replaying = true;
      rtape = tape->data();
      rtape_len = tape->size();
    }
    RngSeed(seed);
    kSimHarness.run();
    Done();
  }
  int st = 0;
  // Wall-clock guard against a run that blocks for real (never expected).
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool timed_out = false;
  for (int spins = 0;; ++spins) {
    const pid_t r = waitpid(pid, &st, spins == 0 ? 0 : WNOHANG);
    if (r == pid) break;
    if (r < 0 && errno == EINTR) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec > wall_limit_s) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        timed_out = true;
        break;
      }
      spins = -1;
      continue;
    }
    spins = -1;
  }
  Outcome o;
  o.hash = sh->hash;
  if (sh->status == kOk) return o;
  if (sh->status == kFailed) {
    o.cls = sh->cls;
    o.msg = sh->msg;
    return o;
  }
  if (sh->status == kTapeOverflow) {
    o.cls = "internal:tape-overflow";
    return o;
  }
  if (timed_out) {
    o.cls = "hang:blocked";
    o.msg = "run made no progress for the wall-clock guard";
    return o;
  }
  const std::string err = ReadErr();
  o.cls = CrashClass(err, st);
  o.msg = err.substr(0, 6000);
  o.hash = Hash64(o.cls, o.hash);
  return o;
}

std::string JsonStr(std::string_view s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
    else if (c == '\n') out += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
    else out += static_cast<char>(c);
  }
  return out + "\"";
}

double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t MixSeed(uint64_t base, uint64_t i) {
  uint64_t x = base * 0x9e3779b97f4a7c15ULL + i;
  SplitMix(x);
  return SplitMix(x);
}

std::vector<uint32_t> Tape() { return {sh->tape, sh->tape + sh->tape_len}; }

void WriteReplay(const std::string& path, uint64_t seed, const Outcome& o, const std::vector<uint32_t>& tape,
                 size_t orig_len) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "{\n \"harness\": %s,\n \"seed\": %llu,\n \"class\": %s,\n \"message\": %s,\n \"trace_hash\": \"%016llx\",\n",
          JsonStr(kSimHarness.name).c_str(), (unsigned long long)seed, JsonStr(o.cls).c_str(), JsonStr(o.msg).c_str(),
          (unsigned long long)o.hash);
  fprintf(f, " \"original_choices\": %zu,\n \"choices\": %zu,\n \"tape\": [", orig_len, tape.size());
  for (size_t i = 0; i < tape.size(); ++i) fprintf(f, "%s%u", i ? "," : "", tape[i]);
  fprintf(f, "],\n \"faults\": {");
  bool first = true;
  for (uint32_t i = 0; i < sh->counters; ++i) {
    if (sh->counter[i].kind != 'f') continue;
    fprintf(f, "%s%s: %u", first ? "" : ", ", JsonStr(sh->counter[i].name).c_str(), sh->counter[i].n);
    first = false;
  }
  fprintf(f, "},\n \"events\": [\n");
  std::string_view log(sh->log, sh->log_len);
  first = true;
  while (!log.empty()) {
    size_t p = log.find('\n');
    fprintf(f, "%s  %s", first ? "" : ",\n", JsonStr(log.substr(0, p)).c_str());
    first = false;
    log.remove_prefix(p + 1);
  }
  fprintf(f, "\n ]\n}\n");
  fclose(f);
}

std::vector<uint32_t> ReadTape(const char* path, uint64_t& seed) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); exit(3); }
  std::string s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  std::vector<uint32_t> out;
  size_t p = s.find("\"seed\": ");
  seed = p == std::string::npos ? 0 : strtoull(s.c_str() + p + 8, nullptr, 10);
  p = s.find("\"tape\": [");
  if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(3); }
  const char* c = s.c_str() + p + 9;
  while (*c && *c != ']') {
    char* e;
    out.push_back(strtoul(c, &e, 10));
    c = e;
    if (*c == ',') ++c;
  }
  return out;
}

// Shrinks `tape` while RunOnce keeps failing with class `cls`.
std::vector<uint32_t> Minimise(std::vector<uint32_t> tape, const std::string& cls, double deadline, int& tries) {
  auto fails = [&](const std::vector<uint32_t>& t) {
    ++tries;
    return RunOnce(0, &t).cls == cls;
  };
  if (!fails(tape)) return tape;
  auto canon = [&] { tape = Tape(); };
  // Note: the run records the tape it consumed; trailing unused choices are dropped that way.
  canon();
  bool progress = true;
  while (progress && Now() < deadline) {
    progress = false;
    // 1. Delete recorded spans, outermost/longest first.
    for (int guard = 0; guard < 10000 && Now() < deadline; ++guard) {
      if (!fails(tape)) break;
      std::vector<std::pair<uint32_t, uint32_t>> spans;
      for (uint32_t i = 0; i < sh->span_len; ++i) {
        uint32_t b = sh->span[i].b, e = std::min<uint32_t>(sh->span[i].e, tape.size());
        if (e > b) spans.push_back({b, e});
      }
      std::sort(spans.begin(), spans.end(),
                [](auto& x, auto& y) { return (x.second - x.first) != (y.second - y.first) ? (x.second - x.first) > (y.second - y.first) : x.first > y.first; });
      spans.erase(std::unique(spans.begin(), spans.end()), spans.end());
      bool deleted = false;
      for (auto [b, e] : spans) {
        if (Now() >= deadline) break;
        std::vector<uint32_t> t(tape.begin(), tape.begin() + b);
        t.insert(t.end(), tape.begin() + e, tape.end());
        if (fails(t) && sh->tape_len < tape.size()) {
          canon();
          deleted = progress = true;
          break;
        }
      }
      if (!deleted) break;
    }
    // 2. Delete chunks.
    for (size_t chunk = std::max<size_t>(1, tape.size() / 2); chunk >= 1 && Now() < deadline; chunk /= 2) {
      for (size_t i = 0; i + chunk <= tape.size() && Now() < deadline;) {
        std::vector<uint32_t> t(tape.begin(), tape.begin() + i);
        t.insert(t.end(), tape.begin() + i + chunk, tape.end());
        if (fails(t) && sh->tape_len < tape.size()) {
          canon();
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    // 3. Lower values.
    for (size_t i = 0; i < tape.size() && Now() < deadline; ++i) {
      if (tape[i] == 0) continue;
      const uint32_t orig = tape[i];
      auto attempt = [&](uint32_t v) {
        std::vector<uint32_t> t = tape;
        t[i] = v;
        if (fails(t) && sh->tape_len <= tape.size()) {
          canon();
          progress = true;
          return true;
        }
        return false;
      };
      if (attempt(0)) continue;
      uint32_t lo = 0, hi = orig;  // binary search smallest failing
      while (lo + 1 < hi && Now() < deadline) {
        const uint32_t mid = lo + (hi - lo) / 2;
        if (i < tape.size() && attempt(mid)) hi = mid; else lo = mid;
        if (i >= tape.size()) break;
      }
    }
  }
  return tape;
}

int Main(int argc, char** argv) {
  uint64_t base = 1, start = 0, count = 100, stride = 1;
  double time_cap = 1e9;
  const char *out = nullptr, *replay = nullptr, *minimise = nullptr, *dump = nullptr, *save = nullptr, *known = nullptr;
  double min_time = 60;
  bool all = false, one = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--base") base = strtoull(val(), nullptr, 10);
    else if (a == "--start") start = strtoull(val(), nullptr, 10);
    else if (a == "--count") count = strtoull(val(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
    else if (a == "--time") time_cap = atof(val());
    else if (a == "--out") out = val();
    else if (a == "--replay") replay = val();
    else if (a == "--minimise") minimise = val();
    else if (a == "--min-time") min_time = atof(val());
    else if (a == "--dump") dump = val();
    else if (a == "--save") save = val();
    else if (a == "--known") known = val();
    else if (a == "--all") all = true;
    else if (a == "--one") one = true;
    else if (a == "--cpu") cpu_limit_s = atoi(val());
    else if (a == "--wall") wall_limit_s = atoi(val());
    else if (a == "-v") verbose = true;
    else { fprintf(stderr, "unknown arg %s\n", a.c_str()); return 3; }
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); return 3; }
  err_fd = memfd_create("err", 0);
  {  // periodic EINTR for the wall guard
    struct sigaction sa{};
    sa.sa_handler = [](int) {};
    sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = it.it_interval.tv_sec = 5;
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  // Populate allocator size classes before forking (keeps the children's cost down under ASAN).
  for (size_t n = 8; n < (1u << 17); n += n < 2048 ? 16 : n / 8) free(malloc(n));
  if (kSimHarness.init) kSimHarness.init();

  if (replay) {
    uint64_t seed;
    auto tape = ReadTape(replay, seed);
    Outcome o = RunOnce(0, &tape);
    printf("%.*s", (int)sh->log_len, sh->log);
    printf("RESULT class=%s hash=%016llx\n%s\n", o.cls.empty() ? "ok" : o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    return o.cls.empty() ? 0 : 1;
  }
  if (one) {  // a single run by index, printed
    run_index = start;
    Outcome o = RunOnce(MixSeed(base, start), nullptr);
    printf("%.*s", (int)sh->log_len, sh->log);
    for (uint32_t i = 0; i < sh->counters; ++i) printf("%c %s %u\n", sh->counter[i].kind, sh->counter[i].name, sh->counter[i].n);
    printf("RESULT class=%s hash=%016llx tape=%u\n%s\n", o.cls.empty() ? "ok" : o.cls.c_str(), (unsigned long long)o.hash, sh->tape_len, o.msg.c_str());
    return o.cls.empty() ? 0 : 1;
  }
  if (minimise) {
    const uint64_t seed = strtoull(minimise, nullptr, 10);
    run_index = start;
    Outcome o = RunOnce(seed, nullptr);
    if (o.cls.empty()) { printf("NOREPRO\n"); return 2; }
    Outcome o2 = RunOnce(seed, nullptr);
    if (o2.cls.empty()) { printf("NONDET %s/ok\n", o.cls.c_str()); return 2; }
    if (o2.cls != o.cls || o2.hash != o.hash) printf("note: the failing code itself varies between executions: %s/%s\n", o.cls.c_str(), o2.cls.c_str());
    o = o2;
    auto tape = Tape();
    const size_t orig = tape.size();
    int tries = 0;
    tape = Minimise(tape, o.cls, Now() + min_time, tries);
    Outcome m = RunOnce(0, &tape);
    Outcome m2 = RunOnce(0, &tape);
    if (m.cls.empty() && !m2.cls.empty()) m = m2;
    if (m.cls.empty()) { printf("NONDET-MIN\n"); return 2; }
    WriteReplay(save, seed, m, tape, orig);
    printf("MINIMISED class=%s choices %zu -> %zu in %d tries\n", m.cls.c_str(), orig, tape.size(), tries);
    return 0;
  }

  std::set<std::string> known_classes;
  if (known) {
    std::string k = known;
    size_t p = 0;
    while (p < k.size()) {
      size_t e = k.find('\n', p);
      if (e == std::string::npos) e = k.size();
      if (e > p) known_classes.insert(k.substr(p, e - p));
      p = e + 1;
    }
  }
  std::unordered_set<uint64_t> hashes, nontriv, states;
  std::map<std::string, uint64_t> faults, probes, known_seen;
  std::vector<std::string> samples;
  uint64_t runs = 0, nt = 0, events = 0, choices = 0, runs_with_fault = 0;
  double simsec = 0;
  struct V { uint64_t idx, seed; Outcome o; };
  std::vector<V> viol;
  FILE* fd = dump ? fopen(dump, "w") : nullptr;
  if (fd) setvbuf(fd, nullptr, _IOLBF, 1 << 16);  // nothing may be pending across fork()
  const double t0 = Now();
  for (uint64_t i = start; i < count; i += stride) {
    if (Now() - t0 > time_cap) break;
    const uint64_t seed = MixSeed(base, i);
    run_index = i;
    Outcome o = RunOnce(seed, nullptr);
    ++runs;
    events += sh->events;
    choices += sh->tape_len;
    simsec += sh->sim_ns * 1e-9;
    hashes.insert(o.hash);
    if (sh->nontrivial) { ++nt; nontriv.insert(o.hash); }
    bool f = false;
    for (uint32_t k = 0; k < sh->counters; ++k) {
      (sh->counter[k].kind == 'f' ? faults : probes)[sh->counter[k].name] += sh->counter[k].n;
      f |= sh->counter[k].kind == 'f';
    }
    runs_with_fault += f;
    for (uint32_t k = 0; k < sh->states; ++k) states.insert(sh->state[k]);
    if (fd) fprintf(fd, "%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)o.hash, o.cls.c_str());
    if (samples.size() < 2 && sh->nontrivial) samples.push_back(std::string(sh->log, std::min<uint32_t>(sh->log_len, 3000)));
    if (!o.cls.empty()) {
      if (known_classes.count(o.cls)) { ++known_seen[o.cls]; continue; }
      viol.push_back({i, seed, o});
      if (!all) break;
    }
  }
  const double wall = Now() - t0;
  if (fd) fclose(fd);
  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) { perror(out); return 3; }
  fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"events\": %llu, \"choices\": %llu, \"sim_s\": %.6f, \"wall\": %.3f, \"runs_with_fault\": %llu,\n",
          (unsigned long long)runs, (unsigned long long)nt, (unsigned long long)events, (unsigned long long)choices, simsec, wall, (unsigned long long)runs_with_fault);
  auto dumpmap = [&](const char* n, const std::map<std::string, uint64_t>& m) {
    fprintf(f, " \"%s\": {", n);
    bool first = true;
    for (auto& [k, v] : m) { fprintf(f, "%s%s: %llu", first ? "" : ", ", JsonStr(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\n");
  };
  dumpmap("faults", faults);
  dumpmap("probes", probes);
  dumpmap("known_seen", known_seen);
  auto dumpset = [&](const char* n, const std::unordered_set<uint64_t>& s) {
    fprintf(f, " \"%s\": [", n);
    bool first = true;
    for (uint64_t v : s) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)v); first = false; }
    fprintf(f, "],\n");
  };
  dumpset("hashes", hashes);
  dumpset("nontrivial_hashes", nontriv);
  dumpset("states", states);
  fprintf(f, " \"samples\": [");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", JsonStr(samples[i]).c_str());
  fprintf(f, "],\n \"violations\": [");
  for (size_t i = 0; i < viol.size(); ++i)
    fprintf(f, "%s{\"index\": %llu, \"seed\": %llu, \"class\": %s, \"message\": %s}", i ? ", " : "", (unsigned long long)viol[i].idx,
            (unsigned long long)viol[i].seed, JsonStr(viol[i].o.cls).c_str(), JsonStr(viol[i].o.msg).c_str());
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return viol.empty() ? 0 : 1;
}

}  // namespace
}  // namespace sim

#ifdef SIM_MAIN_NAME
int SIM_MAIN_NAME(int argc, char** argv) { return sim::Main(argc, argv); }
#else
int main(int argc, char** argv) {
  // Same addresses in every process: a run must not depend on ASLR.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  return sim::Main(argc, argv);
}
#endif
