// The hash algorithms as stream kinds, shared by C04 and C05.
#pragma once
#include "harness/stream_machine.h"
#include "mbo/hash/hash.h"
#include "mbo/hash/hash_extra.h"
#include "ref/ref_digest.h"
#if __has_include("mbo/hash/hash_tembo.h")
#include "mbo/hash/hash_tembo.h"
#endif

namespace hk {
namespace {
using namespace mbo::hash;

std::string S64(uint64_t v) { return std::string(reinterpret_cast<char*>(&v), 8); }
uint64_t U(const std::string& s) { uint64_t v; memcpy(&v, s.data(), 8); return v; }
uint64_t Fmix64(uint64_t h) { h ^= h >> 33; h *= 0xFF51AFD7ED558CCDULL; h ^= h >> 33; h *= 0xC4CEB9FE1A85EC53ULL; return h ^ h >> 33; }

template <class S>
struct Obj : sm::Stream {
  S s;
  template <class... A> explicit Obj(A&&... a) : s(std::forward<A>(a)...) {}
  void Update(std::string_view d) override { s.Update(d); }
  std::string Finalize() const override { return s.Finalize(); }
  std::unique_ptr<Stream> Clone() const override { return std::make_unique<Obj<S>>(*this); }
  void Assign(const Stream& o) override { s = static_cast<const Obj&>(o).s; }
  void SelfMoveRoundTrip() override { S t(std::move(s)); s = std::move(t); }
};
template <class Algo> struct St {
  Streamer<Algo> s;
  St() {}
  explicit St(uint64_t seed) : s(seed) {}
  void Update(std::string_view d) { s.Update(d); }
  std::string Finalize() const { return S64(s.Finalize()); }
};
template <class Algo> struct Raw {
  typename Algo::StreamState st;
  explicit Raw(uint64_t seed) : st(Algo::StreamInit(seed)) {}
  void Update(std::string_view d) { Algo::StreamUpdate(st, d); }
  std::string Finalize() const { return S64(Algo::StreamFinalize(st)); }
};
// A stream that buffers and hashes one-shot out of an exact-size allocation.
template <class Algo> struct OneShot {
  std::string m; uint64_t seed;
  explicit OneShot(uint64_t s) : seed(s) {}
  void Update(std::string_view d) { m += d; }
  static std::string All(std::string_view v, uint64_t seed) {
    const auto h = GetHash128<Algo>(v, seed);
    return S64(GetHash64<Algo>(v, seed)) + S64(h.h1) + S64(h.h2) + S64(GetHash32<Algo>(v, seed));
  }
  std::string Finalize() const { sm::Exact e(m); return All(e.view(), seed); }
};

std::vector<sm::Kind> kinds;

template <class Algo>
void AddStreaming(const char* name, std::function<uint64_t(const std::string&, uint64_t)> ref, size_t block) {
  auto r = [ref](auto& p, const std::string& m) { return S64(ref(m, U(p[0]))); };
  auto one = [](auto& p, std::string_view m) { return S64(GetHash64<Algo>(m, U(p[0]))); };
  kinds.push_back({std::string(name) + "/default-seed", block, 4 * block, [](auto& p) -> std::unique_ptr<sm::Stream> {
    p.push_back(S64(kDefaultSeed)); return std::make_unique<Obj<St<Algo>>>(); }, r, one});
  kinds.push_back({std::string(name) + "/seed", block, 4 * block, [](auto& p) -> std::unique_ptr<sm::Stream> {
    const uint64_t s = sim::U64(); p.push_back(S64(s)); return std::make_unique<Obj<St<Algo>>>(s); }, r, one});
  kinds.push_back({std::string(name) + "/raw", block, 4 * block, [](auto& p) -> std::unique_ptr<sm::Stream> {
    const uint64_t s = sim::U64(); p.push_back(S64(s)); return std::make_unique<Obj<Raw<Algo>>>(s); }, r, one});
}
template <class Algo>
void AddOneShot(const char* name, size_t block) {
  kinds.push_back({std::string(name) + "/one-shot", block, 2 * block, [](auto& p) -> std::unique_ptr<sm::Stream> {
    const uint64_t s = sim::U64(); p.push_back(S64(s)); return std::make_unique<Obj<OneShot<Algo>>>(s); },
    [](auto& p, const std::string& m) {  // the same bytes elsewhere: other alignment, other neighbours
      const size_t off = 1 + m.size() % 13;
      std::string big(off, '\x5a'); big += m; big += std::string(40, '\x77');
      return OneShot<Algo>::All(std::string_view(big).substr(off, m.size()), U(p[0])); }, nullptr});
}
inline void AddHashes() {
  auto oneshot_mumbo = [](const std::string& m, uint64_t seed) { return GetHash64<mumbo::Algorithm>(m, seed); };
  for (int i = 0; i < 2; ++i) {
    AddStreaming<mumbo::Algorithm>("mumbo", oneshot_mumbo, i ? 128 : 16);
    AddStreaming<siphash::Algorithm>("siphash", [](const std::string& m, uint64_t s) { return ref::siphash24(m, s, Fmix64(s)); }, 8);
    AddStreaming<xxh64::Algorithm>("xxh64", [](const std::string& m, uint64_t s) { return ref::xxh64(m, s); }, 32);
  }
  AddStreaming<DefaultHashAlgorithm>("default", [](const std::string& m, uint64_t s) { return GetHash64(m, s); }, 128);
  AddStreaming<jumbo::Algorithm>("jumbo", oneshot_mumbo, 128);
  AddOneShot<mumbo::Algorithm>("mumbo", 128);
  AddOneShot<jumbo::Algorithm>("jumbo", 128);
  AddOneShot<siphash::Algorithm>("siphash", 8);
  AddOneShot<xxh64::Algorithm>("xxh64", 32);
  AddOneShot<xxh3::Algorithm>("xxh3", 64);
  AddOneShot<rapidhash::Algorithm>("rapidhash", 48);
  AddOneShot<murmur3::Algorithm>("murmur3", 16);
  AddOneShot<fnv1a::Algorithm>("fnv1a", 8);
  AddOneShot<dumbo::Algorithm>("dumbo", 8);
  AddOneShot<fambo::Algorithm>("fambo", 16);
}
}  // namespace
}  // namespace hk
