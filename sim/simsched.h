// Simulated thread scheduler. Code under test is compiled with -fsanitize=thread but linked against sched.cc, whose
// __tsan_* callbacks make every memory access and synchronisation operation a scheduling point. Real pthreads are used
// (so thread_local works) but exactly one holds the token; who runs next, and for how many accesses, is drawn from the
// choice tape. A vector-clock detector reports conflicting unsynchronised accesses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>

namespace sched {
constexpr int kMaxThreads = 5;  // including the main thread

// Begin a concurrent phase (draws the schedule style). Main is thread 0.
void Begin();
// Adds a thread; runs only inside RunAll().
void Spawn(std::function<void()> f);
// Lets the spawned threads run to completion under the simulated schedule; joins them.
void RunAll();
bool Active();
// The calling thread is inside the simulator itself (its allocations are nobody's business).
bool InRuntimeNow();
int Self();
// An explicit scheduling point.
void Yield();
// Lock primitives (used by the Abseil shim and the pthread wrappers); obj identifies the lock.
void Lock(void* obj, bool shared = false);
bool TryLock(void* obj);
void Unlock(void* obj, bool shared = false);
// Happens-before edges.
void Release(void* obj);
void Acquire(void* obj);
// Blocks the calling thread until woken by Wake(obj).
void Wait(void* obj);
void Wake(void* obj);
// Memory (de)allocation notifications for the race detector.
void OnAlloc(void* p, size_t n);
void OnFree(void* p, size_t n);
void Access(const void* p, size_t n, bool write, void* pc);
uint64_t Accesses();
uint64_t Switches();
}  // namespace sched
