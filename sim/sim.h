// Deterministic simulation core.
//
// One run = one fork()ed child whose whole behaviour is a pure function of (code, choice tape).
// Every nondeterministic decision (workload, schedule, clock step, fault) is drawn with Choose() and
// recorded on the tape; replaying the tape replays the run.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>

namespace sim {

// A choice in [0, n). 0 is by convention the simplest / most benign outcome.
uint32_t Choose(uint32_t n);
// As Choose, but sweeps round-robin over the run index (replayable from the tape all the same).
uint32_t ChooseIndexed(uint32_t n);
// lo..hi inclusive.
uint64_t Range(uint64_t lo, uint64_t hi);
// True with probability num/den; false is the simple outcome.
bool Chance(uint32_t num, uint32_t den);
// 64 arbitrary bits (0 is the simple outcome), biased to interesting values.
uint64_t U64();
// Uniform 64 bits.
uint64_t Raw64();
// Size biased to boundaries of `unit` (0, 1, unit-1, unit, unit+1, k*unit+-1, ...), at most max.
size_t SizeNear(size_t unit, size_t max);
// Deterministic content of given length from a single choice (kinds: zeros, ff, ramp, random ...).
std::string Blob(size_t len);

// Marks a deletable span of the choice tape.
class Span {
 public:
  explicit Span(const char* name);
  ~Span();
  Span(const Span&) = delete;
  Span& operator=(const Span&) = delete;

 private:
  uint32_t idx_;
};

// Records an event: part of the run's trace (hashed) and of its readable log.
[[gnu::format(printf, 1, 2)]] void Ev(const char* fmt, ...);
// Readable only, not hashed.
[[gnu::format(printf, 1, 2)]] void Note(const char* fmt, ...);
// An injected fault actually fired.
void Fault(const char* kind, int n = 1);
// A rare condition was reached.
void Probe(const char* name, int n = 1);
// Abstract state reached (distinct ones are counted across runs).
void State(uint64_t h);
// This run qualifies as non-trivial by the harness' rule.
void NonTrivial();
// Advance simulated time.
void Advance(int64_t ns);
int64_t NowNs();
void SetNowNs(int64_t ns);

// Ends the run as a violation. cls identifies the kind of failure (no data), msg the detail.
[[noreturn]] [[gnu::format(printf, 2, 3)]] void Fail(const char* cls, const char* fmt, ...);
// Ends the run now, successfully.
[[noreturn]] void Done();

// When set, called by the core on an abnormal exit (exit()/abort()) so a harness can judge it.
bool Replaying();

// Called with +1/-1 around the simulator's own work, when set.
extern void (*runtime_hook)(int);

uint64_t Hash64(std::string_view s, uint64_t h = 0xcbf29ce484222325ULL);
std::string Hex(std::string_view s, size_t max = 64);
std::string Quote(std::string_view s, size_t max = 96);

#define SIM_CHECK(cond, cls, ...)              \
  do {                                         \
    if (!(cond)) ::sim::Fail(cls, __VA_ARGS__); \
  } while (0)

}  // namespace sim

// Provided by the harness.
struct SimHarness {
  const char* name;
  void (*run)();
  // Optional: one-time set up in the driver process before any fork.
  void (*init)();
};
extern const SimHarness kSimHarness;
