#include "alloc.h"

#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <new>

#include "simsched.h"
#include "sim.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
struct Rec { void* p; uint8_t kind; };  // 1: malloc, 2: new
constexpr size_t kN = 1u << 16;
Rec recs[kN];
bool audit = false, armed = false, sticky_ = false;
uint32_t nth_ = 0, calls = 0, failed = 0;
int64_t out_malloc = 0, out_new = 0;

size_t Slot(void* p) { return (reinterpret_cast<uintptr_t>(p) * 0x9e3779b97f4a7c15ULL) >> 48; }
void Add(void* p, uint8_t k) {
  if (!audit || !p || sched::InRuntimeNow()) return;
  for (size_t i = Slot(p), n = 0; n < kN; ++n, i = (i + 1) % kN)
    if (!recs[i].p || recs[i].p == reinterpret_cast<void*>(1)) { recs[i] = {p, k}; (k == 1 ? out_malloc : out_new)++; return; }
}
// Returns the kind under which p was registered, 0 if unknown.
uint8_t Del(void* p) {
  if (!audit || !p) return 0;
  for (size_t i = Slot(p), n = 0; n < kN; ++n, i = (i + 1) % kN) {
    if (!recs[i].p) return 0;
    if (recs[i].p == p) { uint8_t k = recs[i].kind; recs[i] = {reinterpret_cast<void*>(1), 0}; (k == 1 ? out_malloc : out_new)--; return k; }
  }
  return 0;
}
// The C library's own allocations (thread-local storage, destructor registration) end the process when they fail.
struct Range { uintptr_t lo, hi; };
Range libs[4];
int nlibs = -1;
bool InLibc(const void* ra) {
  if (nlibs < 0) {
    nlibs = 0;
    dl_iterate_phdr(
        [](dl_phdr_info* i, size_t, void*) {
          if (!i->dlpi_name || (!strstr(i->dlpi_name, "/libc.so") && !strstr(i->dlpi_name, "/ld-linux"))) return 0;
          for (int k = 0; k < i->dlpi_phnum && nlibs < 4; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
              libs[nlibs++] = {i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz};
          return 0;
        },
        nullptr);
  }
  for (int k = 0; k < nlibs; ++k)
    if (reinterpret_cast<uintptr_t>(ra) >= libs[k].lo && reinterpret_cast<uintptr_t>(ra) < libs[k].hi) return true;
  return false;
}
bool ShouldFail(const void* ra) {
  if (!armed || sched::InRuntimeNow() || InLibc(ra)) return false;
  ++calls;
  if (nth_ && (calls == nth_ || (sticky_ && calls > nth_))) { ++failed; return true; }
  return false;
}
}  // namespace
namespace simalloc {
void Arm(uint32_t nth, bool sticky) { armed = true; sticky_ = sticky; nth_ = nth; calls = failed = 0; }
void Disarm() { armed = false; }
uint32_t Failed() { return failed; }
uint32_t Calls() { return calls; }
void StartAudit() { memset(recs, 0, sizeof recs); out_malloc = out_new = 0; audit = true; }
int64_t Outstanding() { return out_malloc; }
int64_t OutstandingNew() { return out_new; }
void StopAudit() { audit = false; }
}  // namespace simalloc

extern "C" {
void* malloc(size_t n) {
  if (ShouldFail(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
  void* p = __libc_malloc(n);
  Add(p, 1);
  sched::OnAlloc(p, n);
  return p;
}
void free(void* p) {
  if (!p) return;
  if (Del(p) == 2) sim::Fail("alloc-mismatch", "block from operator new released with free()");
  if (sched::Active()) sched::OnFree(p, malloc_usable_size(p));
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (ShouldFail(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
  void* p = __libc_calloc(a, b);
  Add(p, 1);
  sched::OnAlloc(p, a * b);
  return p;
}
void* realloc(void* o, size_t n) {
  if (ShouldFail(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
  Del(o);
  if (o && sched::Active()) sched::OnFree(o, malloc_usable_size(o));
  void* p = __libc_realloc(o, n);
  Add(p, 1);
  sched::OnAlloc(p, n);
  return p;
}
}
static void* New(size_t n, size_t al = 0) {
  void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
  if (!p) abort();
  Add(p, 2);
  sched::OnAlloc(p, n);
  return p;
}
void* operator new(size_t n) { return New(n); }
void* operator new[](size_t n) { return New(n); }
void* operator new(size_t n, std::align_val_t a) { return New(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return New(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return New(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return New(n); }
static void Delete(void* p) {
  if (!p) return;
  if (Del(p) == 1) sim::Fail("alloc-mismatch", "block from malloc() released with operator delete");
  if (sched::Active()) sched::OnFree(p, malloc_usable_size(p));
  __libc_free(p);
}
void operator delete(void* p) noexcept { Delete(p); }
void operator delete[](void* p) noexcept { Delete(p); }
void operator delete(void* p, size_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t) noexcept { Delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Delete(p); }
