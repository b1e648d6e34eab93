// Declarations of the reference implementations (defined in ref_digest.cc, built without sanitizers).
#pragma once
#include <cstdint>
#include <string>
namespace ref {
std::string md5(const std::string&), sha1(const std::string&), sha224(const std::string&), sha256(const std::string&), sha384(const std::string&), sha512(const std::string&);
std::string sha512_t(const std::string&, int t);
std::string sha3(const std::string&, int bits);
std::string shake(const std::string&, int bits, size_t n);
std::string blake2b(const std::string&, size_t outlen, const std::string& key = {});
std::string blake3(const std::string&, size_t n);
std::string blake3_keyed(const std::string& k, const std::string& m, size_t n);
std::string blake3_derive(const std::string& ctx, const std::string& m, size_t n);
uint64_t siphash24(const std::string& m, uint64_t k0, uint64_t k1);
uint64_t xxh64(const std::string& m, uint64_t seed);
template <class H> std::string hmac(H h, size_t block, std::string key, const std::string& m) {
  if (key.size() > block) key = h(key);
  key.resize(block);
  std::string i = key, o = key;
  for (auto& c : i) c = static_cast<char>(c ^ 0x36);
  for (auto& c : o) c = static_cast<char>(c ^ 0x5c);
  return h(o + h(i + m));
}
}  // namespace ref
