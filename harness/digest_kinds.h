// The digest algorithms as stream kinds (real object + independent reference), shared by C01, C02, C03 and C05.
#pragma once
#include "harness/stream_machine.h"
#include "mbo/digest/digest.h"
#include "ref/ref_digest.h"

namespace dk {
namespace {
using namespace mbo::digest;

template <class A> std::string Str(const A& a) { return std::string(reinterpret_cast<const char*>(a.data()), a.size()); }

template <class S>
struct Obj : sm::Stream {
  S s;
  template <class... A> explicit Obj(A&&... a) : s(std::forward<A>(a)...) {}
  void Update(std::string_view d) override { s.Update(d); }
  std::string Finalize() const override { return Str(s.Finalize()); }
  std::unique_ptr<Stream> Clone() const override { return std::make_unique<Obj<S>>(*this); }
  void Assign(const Stream& o) override { s = static_cast<const Obj&>(o).s; }
  void SelfMoveRoundTrip() override { S t(std::move(s)); s = std::move(t); }
};

// The raw algorithm interface (StreamInit*/StreamUpdate/StreamFinalize) as a stream object.
template <class Algo>
struct Raw {
  typename Algo::StreamState st;
  explicit Raw(typename Algo::StreamState s) : st(s) {}
  void Update(std::string_view d) { Algo::StreamUpdate(st, d); }
  auto Finalize() const { return Algo::StreamFinalize(st); }
};

std::vector<sm::Kind> kinds;

// ---- C01
template <class Algo, class R>
void Add(const char* name, R r, size_t big = Algo::kBlockSize) {
  kinds.push_back({name, Algo::kBlockSize, big, [](auto&) { return std::make_unique<Obj<Streamer<Algo>>>(); },
                   [r](auto&, const std::string& m) { return r(m); }, [](auto&, std::string_view m) { return Str(Algo::Digest(m)); }});
  kinds.push_back({std::string(name) + "/raw", Algo::kBlockSize, big,
                   [](auto&) { return std::make_unique<Obj<Raw<Algo>>>(Algo::StreamInit()); },
                   [r](auto&, const std::string& m) { return r(m); }, [](auto&, std::string_view m) { return Str(Algo::Digest(m)); }});
}
inline void AddUnkeyed() {
  Add<md5::Algorithm>("md5", ref::md5);
  Add<sha1::Algorithm>("sha1", ref::sha1);
  Add<sha224::Algorithm>("sha224", ref::sha224);
  Add<sha256::Algorithm>("sha256", ref::sha256);
  Add<sha384::Algorithm>("sha384", ref::sha384);
  Add<sha512::Algorithm>("sha512", ref::sha512);
  Add<sha512_224::Algorithm>("sha512_224", [](const std::string& m) { return ref::sha512_t(m, 224); });
  Add<sha512_256::Algorithm>("sha512_256", [](const std::string& m) { return ref::sha512_t(m, 256); });
  Add<sha3_224::Algorithm>("sha3_224", [](const std::string& m) { return ref::sha3(m, 224); });
  Add<sha3_256::Algorithm>("sha3_256", [](const std::string& m) { return ref::sha3(m, 256); });
  Add<sha3_384::Algorithm>("sha3_384", [](const std::string& m) { return ref::sha3(m, 384); });
  Add<sha3_512::Algorithm>("sha3_512", [](const std::string& m) { return ref::sha3(m, 512); });
  Add<blake2b::Algorithm>("blake2b", [](const std::string& m) { return ref::blake2b(m, 64); });
  Add<blake2b_256::Algorithm>("blake2b_256", [](const std::string& m) { return ref::blake2b(m, 32); });
  for (int i = 0; i < 2; ++i) Add<blake3::Algorithm>("blake3", [](const std::string& m) { return ref::blake3(m, 32); }, 1024);
}

// ---- C02
std::string Key(size_t block, size_t lo, size_t hi) {
  size_t n;
  switch (sim::Choose(4)) {
    case 0: n = lo + sim::Choose(3); break;
    case 1: n = block - 1 + sim::Choose(3); break;
    case 2: n = sim::Range(lo, block); break;
    default: n = sim::Range(lo, hi); break;
  }
  return sim::Blob(std::min(std::max(n, lo), hi));
}
template <class Algo, class R>
void AddHmac(const char* name, R r) {
  constexpr size_t B = Algo::kBlockSize;
  auto ref = [r](auto& p, const std::string& m) { return ref::hmac(r, B, p[0], m); };
  auto one = [](auto& p, std::string_view m) { sm::Exact k(p[0]); return Str(Hmac<Algo>::Digest(k.view(), m)); };
  kinds.push_back({std::string("hmac-") + name, B, B, [](auto& p) -> std::unique_ptr<sm::Stream> {
                     p.push_back(Key(B, 0, 3 * B)); sm::Exact k(p[0]); return std::make_unique<Obj<HmacStreamer<Algo>>>(k.view()); }, ref, one});
  kinds.push_back({std::string("hmac-raw-") + name, B, B, [](auto& p) -> std::unique_ptr<sm::Stream> {
                     p.push_back(Key(B, 0, 3 * B)); sm::Exact k(p[0]); return std::make_unique<Obj<Raw<Hmac<Algo>>>>(Hmac<Algo>::StreamInit(k.view())); }, ref, one});
}
inline void AddKeyed() {
  AddHmac<md5::Algorithm>("md5", ref::md5);
  AddHmac<sha1::Algorithm>("sha1", ref::sha1);
  AddHmac<sha224::Algorithm>("sha224", ref::sha224);
  AddHmac<sha256::Algorithm>("sha256", ref::sha256);
  AddHmac<sha384::Algorithm>("sha384", ref::sha384);
  AddHmac<sha512::Algorithm>("sha512", ref::sha512);
  AddHmac<sha512_224::Algorithm>("sha512_224", [](const std::string& m) { return ref::sha512_t(m, 224); });
  AddHmac<sha512_256::Algorithm>("sha512_256", [](const std::string& m) { return ref::sha512_t(m, 256); });
  AddHmac<sha3_224::Algorithm>("sha3_224", [](const std::string& m) { return ref::sha3(m, 224); });
  AddHmac<sha3_256::Algorithm>("sha3_256", [](const std::string& m) { return ref::sha3(m, 256); });
  AddHmac<sha3_384::Algorithm>("sha3_384", [](const std::string& m) { return ref::sha3(m, 384); });
  AddHmac<sha3_512::Algorithm>("sha3_512", [](const std::string& m) { return ref::sha3(m, 512); });
  AddHmac<blake2b::Algorithm>("blake2b", [](const std::string& m) { return ref::blake2b(m, 64); });
  AddHmac<blake2b_256::Algorithm>("blake2b_256", [](const std::string& m) { return ref::blake2b(m, 32); });
  AddHmac<blake3::Algorithm>("blake3", [](const std::string& m) { return ref::blake3(m, 32); });
  for (int rep = 0; rep < 3; ++rep) {
    kinds.push_back({"blake2b-keyed", 128, 128, [](auto& p) -> std::unique_ptr<sm::Stream> {
                       p.push_back(Key(64, 0, 70)); sm::Exact k(p[0]); return std::make_unique<Obj<Raw<blake2b::Algorithm>>>(blake2b::Algorithm::StreamInitKeyed(k.view())); },
                     [](auto& p, const std::string& m) { return ref::blake2b(m, 64, p[0].substr(0, 64)); },
                     [](auto& p, std::string_view m) { sm::Exact k(p[0]); return Str(blake2b::Algorithm::DigestKeyed(k.view(), m)); }});
    kinds.push_back({"blake2b_256-keyed", 128, 128, [](auto& p) -> std::unique_ptr<sm::Stream> {
                       p.push_back(Key(64, 0, 70)); sm::Exact k(p[0]); return std::make_unique<Obj<Raw<blake2b_256::Algorithm>>>(blake2b_256::Algorithm::StreamInitKeyed(k.view())); },
                     [](auto& p, const std::string& m) { return ref::blake2b(m, 32, p[0].substr(0, 64)); },
                     [](auto& p, std::string_view m) { sm::Exact k(p[0]); return Str(blake2b_256::Algorithm::DigestKeyed(k.view(), m)); }});
    kinds.push_back({"blake3-keyed", 64, 1024, [](auto& p) -> std::unique_ptr<sm::Stream> {
                       p.push_back(sim::Chance(1, 3) ? Key(32, 0, 70) : sim::Blob(32)); sm::Exact k(p[0]); return std::make_unique<Obj<Raw<blake3::Algorithm>>>(blake3::Algorithm::StreamInitKeyed(k.view())); },
                     [](auto& p, const std::string& m) { std::string key = p[0]; key.resize(32); return ref::blake3_keyed(key, m, 32); },
                     [](auto& p, std::string_view m) { sm::Exact k(p[0]); return Str(blake3::DigestKeyed(k.view(), m)); }});
    // Key derivation has no streaming form: the "stream" buffers and derives at each peek, interleaved with the others.
    struct Derive {
      std::string ctx, m;
      void Update(std::string_view d) { m += d; }
      auto Finalize() const { sm::Exact c(ctx), k(m); return blake3::DeriveKey(c.view(), k.view()); }
    };
    struct MkDerive { static std::unique_ptr<sm::Stream> mk(std::vector<std::string>& p) {
      p.push_back(sim::Blob(sim::SizeNear(64, 3000))); auto o = std::make_unique<Obj<Derive>>(); o->s.ctx = p[0]; return o; } };
    kinds.push_back({"blake3-derive", 64, 1024, MkDerive::mk,
                     [](auto& p, const std::string& m) { return ref::blake3_derive(p[0], m, 32); }, nullptr});
  }
}

// ---- C03
// Output lengths are template parameters: a spread including rate boundaries and multi-block squeezes.
template <template <size_t> class Algo, size_t Rate, size_t... N>
void AddShake(const char* name, int bits) {
  (kinds.push_back({std::string(name) + "/" + std::to_string(N), Rate, Rate,
                    [](auto&) -> std::unique_ptr<sm::Stream> { return std::make_unique<Obj<Streamer<Algo<N>>>>(); },
                    [bits](auto&, const std::string& m) { return ref::shake(m, bits, N); },
                    [](auto&, std::string_view m) { return Str(Algo<N>::Digest(m)); }}), ...);
}
// One absorbed state squeezed at two lengths: the shorter must be a prefix of the longer at every peek.
template <template <size_t> class Algo, size_t A, size_t B>
struct Two {
  typename Algo<A>::StreamState a = Algo<A>::StreamInit();
  typename Algo<B>::StreamState b = Algo<B>::StreamInit();
  void Update(std::string_view d) { Algo<A>::StreamUpdate(a, d); Algo<B>::StreamUpdate(b, d); }
  std::array<uint8_t, B> Finalize() const {
    const auto x = Algo<A>::StreamFinalize(a);
    const auto y = Algo<B>::StreamFinalize(b);
    SIM_CHECK(std::equal(x.begin(), x.end(), y.begin()), "prefix-mismatch", "output of length %zu is not a prefix of length %zu", A, B);
    return y;
  }
};
template <size_t N> struct B3Xof {
  std::string m, key, ctx; int mode = 0;
  void Update(std::string_view d) { m += d; }
  std::array<uint8_t, N> Finalize() const {
    sm::Exact e(m), k(key), c(ctx);
    const auto out = mode == 0 ? blake3::DigestXof<N>(e.view()) : mode == 1 ? blake3::DigestKeyed<N>(k.view(), e.view()) : blake3::DeriveKey<N>(c.view(), e.view());
    if constexpr (N > 1) {
      const auto p = mode == 0 ? blake3::DigestXof<N / 2>(e.view()) : mode == 1 ? blake3::DigestKeyed<N / 2>(k.view(), e.view()) : blake3::DeriveKey<N / 2>(c.view(), e.view());
      SIM_CHECK(std::equal(p.begin(), p.end(), out.begin()), "prefix-mismatch", "BLAKE3 output of length %zu is not a prefix of length %zu", N / 2, N);
    }
    return out;
  }
};
template <size_t... N> void AddB3() {
  (kinds.push_back({"blake3-xof/" + std::to_string(N), 64, 1024,
                    [](auto& p) -> std::unique_ptr<sm::Stream> {
                      auto o = std::make_unique<Obj<B3Xof<N>>>(); o->s.mode = sim::Choose(3);
                      p.push_back(std::to_string(o->s.mode)); p.push_back(o->s.mode == 1 ? sim::Blob(32) : sim::Blob(sim::Choose(80)));
                      o->s.key = p[1]; o->s.ctx = p[1]; return o; },
                    [](auto& p, const std::string& m) { return p[0] == "0" ? ref::blake3(m, N) : p[0] == "1" ? ref::blake3_keyed(p[1], m, N) : ref::blake3_derive(p[1], m, N); },
                    nullptr}), ...);
}
inline void AddXof() {
  AddShake<shake128::Algorithm, 168, 1, 8, 16, 32, 100, 167, 168, 169, 200, 335, 336, 337, 504, 1000>("shake128", 128);
  AddShake<shake256::Algorithm, 136, 1, 8, 32, 64, 100, 135, 136, 137, 200, 271, 272, 273, 408, 1000>("shake256", 256);
  kinds.push_back({"shake128-two", 168, 168, [](auto&) -> std::unique_ptr<sm::Stream> { return std::make_unique<Obj<Two<shake128::Algorithm, 100, 600>>>(); },
                   [](auto&, const std::string& m) { return ref::shake(m, 128, 600); }, [](auto&, std::string_view m) { return Str(shake128::Digest<600>(m)); }});
  kinds.push_back({"shake256-two", 136, 136, [](auto&) -> std::unique_ptr<sm::Stream> { return std::make_unique<Obj<Two<shake256::Algorithm, 150, 410>>>(); },
                   [](auto&, const std::string& m) { return ref::shake(m, 256, 410); }, [](auto&, std::string_view m) { return Str(shake256::Digest<410>(m)); }});
  AddB3<1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 131, 192, 257, 1025>();
}
}  // namespace
}  // namespace dk
