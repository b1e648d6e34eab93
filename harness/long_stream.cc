// C01 / C04: very long streams (beyond 2^32 bytes) delivered in arbitrary large chunks, against golden values
// computed with hashlib / the references for the same fixed content.
#include <sys/mman.h>
#include <unistd.h>

#include <cstring>

#include "mbo/digest/digest.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "sim.h"

namespace {
constexpr size_t kUnit = 1 << 20;
constexpr size_t kTotal = (size_t{1} << 32) + (size_t{1} << 20) + 77;
const char* g_data;

void Init() {
  const int fd = memfd_create("pattern", 0);
  std::string pat(kUnit, 0);
  uint64_t x = 88172645463325252ULL;
  for (size_t i = 0; i < kUnit; i += 8) {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    memcpy(&pat[i], &x, 8);
  }
  if (write(fd, pat.data(), kUnit) != static_cast<ssize_t>(kUnit)) abort();
  const size_t n = kTotal / kUnit + 1;
  char* base = static_cast<char*>(mmap(nullptr, n * kUnit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (size_t i = 0; i < n; ++i) mmap(base + i * kUnit, kUnit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
  g_data = base;
}

template <class S> auto Feed(S& s) {
  const uint32_t style = sim::Choose(3);
  size_t pos = 0;
  int n = 0;
  while (pos < kTotal) {
    sim::Span sp("chunk");
    size_t take;
    if (style == 0) take = kTotal - pos;
    else if (style == 1) take = sim::Range(1, size_t{1} << 29);
    else take = sim::Chance(1, 4) ? sim::Range(1, 300) : sim::Range(1, size_t{1} << 28);
    if (++n > 60) take = kTotal - pos;
    take = std::min(take, kTotal - pos);
    s.Update({g_data + pos, take});
    sim::Ev("update at %zu +%zu", pos, take);
    pos += take;
  }
  if (n > 1) sim::NonTrivial();
  return s.Finalize();
}
template <class Algo> void D(const char* name, const char* golden) {
  sim::Ev("long stream %s", name);
  mbo::digest::Streamer<Algo> s;
  const std::string got = mbo::digest::ToHexString(Feed(s));
  SIM_CHECK(got == golden, "long-stream-mismatch", "%s of %zu bytes: %s, expected %s", name, kTotal, got.c_str(), golden);
}
template <class Algo> void H(const char* name, const char* golden, uint64_t seed) {
  sim::Ev("long stream %s", name);
  mbo::hash::Streamer<Algo> s(seed);
  char got[32], one[32];
  snprintf(got, sizeof got, "%016llx", (unsigned long long)Feed(s));
  snprintf(one, sizeof one, "%016llx", (unsigned long long)mbo::hash::GetHash64<Algo>({g_data, kTotal}, seed));
  SIM_CHECK(!strcmp(got, one), "long-stream-mismatch", "%s of %zu bytes: stream %s, one-shot %s", name, kTotal, got, one);
  SIM_CHECK(!golden || !strcmp(got, golden), "long-stream-mismatch", "%s of %zu bytes: %s, expected %s", name, kTotal, got, golden);
}
#include "long_golden.inc"
}  // namespace
#ifdef PROP_C01
void Run() {
  using namespace mbo::digest;
  switch (sim::ChooseIndexed(8)) {
    case 0: return D<sha256::Algorithm>("sha256", kSha256);
    case 1: return D<sha512::Algorithm>("sha512", kSha512);
    case 2: return D<md5::Algorithm>("md5", kMd5);
    case 3: return D<sha1::Algorithm>("sha1", kSha1);
    case 4: return D<blake2b::Algorithm>("blake2b", kBlake2b);
    case 5: return D<blake3::Algorithm>("blake3", kBlake3);
    case 6: return D<sha224::Algorithm>("sha224", kSha224);
    case 7: return D<sha384::Algorithm>("sha384", kSha384);
  }
}
#else
void Run() {
  using namespace mbo::hash;
  switch (sim::ChooseIndexed(4)) {
    case 0: return H<mumbo::Algorithm>("mumbo", nullptr, sim::U64());
    case 1: return H<siphash::Algorithm>("siphash", kSip7, 7);
    case 2: return H<xxh64::Algorithm>("xxh64", kXxh7, 7);
    case 3: return H<jumbo::Algorithm>("jumbo", nullptr, sim::U64());
  }
}
#endif
const SimHarness kSimHarness = {"long", Run, Init};
