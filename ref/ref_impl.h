// Independent, deliberately simple reference implementations: whole message in memory, no streaming, no
// shared code with /repo. Validated against Python's hashlib and published vectors by tools/validate_refs.py.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>

namespace ref {
using Bytes = std::string;
inline uint64_t rol64(uint64_t v, unsigned n) { n &= 63; return n ? (v << n) | (v >> (64 - n)) : v; }
inline uint32_t rol32(uint32_t v, unsigned n) { n &= 31; return n ? (v << n) | (v >> (32 - n)) : v; }
inline uint64_t ror64(uint64_t v, unsigned n) { return rol64(v, 64 - n); }
inline uint32_t ror32(uint32_t v, unsigned n) { return rol32(v, 32 - n); }
inline uint64_t le(const Bytes& s, size_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= uint64_t(uint8_t(s[p + i])) << (8 * i); return v; }
inline uint64_t be(const Bytes& s, size_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = v << 8 | uint8_t(s[p + i]); return v; }
inline void putle(Bytes& s, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) s += char(v >> (8 * i)); }
inline void putbe(Bytes& s, uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0;) s += char(v >> (8 * i)); }

inline Bytes md5(const Bytes& msg) {
  static const unsigned R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  static uint32_t K[64];
  if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = uint32_t(floorl(fabsl(sinl(i + 1.0L)) * 4294967296.0L));
  Bytes m = msg; m += char(0x80);
  while (m.size() % 64 != 56) m += '\0';
  putle(m, uint64_t(msg.size()) * 8, 8);
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      switch (i / 16) {
        case 0: f = (b & c) | (~b & d); g = i; break;
        case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
        case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
        default: f = c ^ (b | ~d); g = (7 * i) % 16; break;
      }
      uint32_t t = a + f + K[i] + uint32_t(le(m, o + 4 * g, 4));
      a = d; d = c; c = b; b += rol32(t, R[i / 16][i % 4]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  Bytes out; for (uint32_t v : h) putle(out, v, 4); return out;
}

inline Bytes sha1(const Bytes& msg) {
  Bytes m = msg; m += char(0x80);
  while (m.size() % 64 != 56) m += '\0';
  putbe(m, uint64_t(msg.size()) * 8, 8);
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; ++i) w[i] = uint32_t(be(m, o + 4 * i, 4));
    for (int i = 16; i < 80; ++i) w[i] = rol32(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; ++i) {
      uint32_t f, k;
      if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
      else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
      else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
      else f = b ^ c ^ d, k = 0xCA62C1D6;
      uint32_t t = rol32(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rol32(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  Bytes out; for (uint32_t v : h) putbe(out, v, 4); return out;
}

// First 64 bits of the fractional part of the r-th root of p, by integer arithmetic.
inline uint64_t frac_root(uint64_t p, int r) {
  // find x = floor(root(p) * 2^64) using 256-bit-ish comparisons via long multiplication
  // bisection on x (up to 2^68 fits in 128 bits): x^r <= p * 2^(64 r)
  using u128 = unsigned __int128;
  auto mul = [](const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
    std::vector<uint32_t> c(a.size() + b.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) { uint64_t cy = 0; for (size_t j = 0; j < b.size(); ++j) { uint64_t t = uint64_t(a[i]) * b[j] + c[i + j] + cy; c[i + j] = uint32_t(t); cy = t >> 32; } c[i + b.size()] = uint32_t(cy); }
    return c; };
  auto big = [](u128 v) { std::vector<uint32_t> o; for (int i = 0; i < 4; ++i) o.push_back(uint32_t(v >> (32 * i))); return o; };
  auto leq = [](std::vector<uint32_t> a, std::vector<uint32_t> b) { size_t n = std::max(a.size(), b.size()); a.resize(n); b.resize(n); for (size_t i = n; i-- > 0;) if (a[i] != b[i]) return a[i] < b[i]; return true; };
  std::vector<uint32_t> target(2 * r, 0); target.push_back(uint32_t(p)); target.push_back(uint32_t(p >> 32));
  u128 lo = 0, hi = u128(1) << 72;
  while (hi - lo > 1) { u128 mid = lo + (hi - lo) / 2; auto x = big(mid); auto y = x; for (int i = 1; i < r; ++i) y = mul(y, x); if (leq(y, target)) lo = mid; else hi = mid; }
  return uint64_t(lo);
}
struct ShaConst { uint64_t k[80]; uint64_t h[16]; };
inline const ShaConst& sha_const() {
  static ShaConst c = [] { ShaConst c{}; int n = 0; for (uint64_t p = 2; n < 80; ++p) { bool pr = true; for (uint64_t d = 2; d * d <= p; ++d) if (p % d == 0) pr = false; if (!pr) continue; c.k[n] = frac_root(p, 3); if (n < 16) c.h[n] = frac_root(p, 2); ++n; } return c; }();
  return c;
}

inline Bytes sha2_32(const Bytes& msg, const uint32_t iv[8], size_t outlen) {
  const auto& C = sha_const();
  Bytes m = msg; m += char(0x80);
  while (m.size() % 64 != 56) m += '\0';
  putbe(m, uint64_t(msg.size()) * 8, 8);
  uint32_t h[8]; memcpy(h, iv, sizeof h);
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; ++i) w[i] = uint32_t(be(m, o + 4 * i, 4));
    for (int i = 16; i < 64; ++i) {
      uint32_t s0 = ror32(w[i - 15], 7) ^ ror32(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = ror32(w[i - 2], 17) ^ ror32(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; ++i) {
      uint32_t S1 = ror32(v[4], 6) ^ ror32(v[4], 11) ^ ror32(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + ch + uint32_t(C.k[i] >> 32) + w[i];
      uint32_t S0 = ror32(v[0], 2) ^ ror32(v[0], 13) ^ ror32(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes out; for (uint32_t v : h) putbe(out, v, 4); out.resize(outlen); return out;
}
inline Bytes sha256(const Bytes& m) { uint32_t iv[8]; for (int i = 0; i < 8; ++i) iv[i] = uint32_t(sha_const().h[i] >> 32); return sha2_32(m, iv, 32); }
// SHA-224's IV: the second 32 bits of the fractional parts of the square roots of the 9th..16th primes.
inline Bytes sha224(const Bytes& m) { uint32_t iv[8]; for (int i = 0; i < 8; ++i) iv[i] = uint32_t(sha_const().h[8 + i]); return sha2_32(m, iv, 28); }
inline Bytes sha2_64(const Bytes& msg, const uint64_t iv[8], size_t outlen) {
  const auto& C = sha_const();
  Bytes m = msg; m += char(0x80);
  while (m.size() % 128 != 112) m += '\0';
  putbe(m, uint64_t(msg.size()) >> 61, 8); putbe(m, uint64_t(msg.size()) << 3, 8);
  uint64_t h[8]; memcpy(h, iv, sizeof h);
  for (size_t o = 0; o < m.size(); o += 128) {
    uint64_t w[80];
    for (int i = 0; i < 16; ++i) w[i] = be(m, o + 8 * i, 8);
    for (int i = 16; i < 80; ++i) {
      uint64_t s0 = ror64(w[i - 15], 1) ^ ror64(w[i - 15], 8) ^ (w[i - 15] >> 7), s1 = ror64(w[i - 2], 19) ^ ror64(w[i - 2], 61) ^ (w[i - 2] >> 6);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint64_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 80; ++i) {
      uint64_t S1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint64_t t1 = v[7] + S1 + ch + C.k[i] + w[i];
      uint64_t S0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int j = 7; j > 0; --j) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; ++i) h[i] += v[i];
  }
  Bytes out; for (uint64_t v : h) putbe(out, v, 8); out.resize(outlen); return out;
}
inline Bytes sha512(const Bytes& m) { return sha2_64(m, sha_const().h, 64); }
inline Bytes sha384(const Bytes& m) { return sha2_64(m, sha_const().h + 8, 48); }
inline Bytes sha512_t(const Bytes& m, int t) {  // FIPS 180-4 5.3.6: IV generation function
  uint64_t iv[8]; for (int i = 0; i < 8; ++i) iv[i] = sha_const().h[i] ^ 0xa5a5a5a5a5a5a5a5ULL;
  const Bytes d = sha2_64("SHA-512/" + std::to_string(t), iv, 64);
  for (int i = 0; i < 8; ++i) iv[i] = be(d, 8 * i, 8);
  return sha2_64(m, iv, t / 8);
}

inline void keccak_f(uint64_t A[25]) {
  uint8_t lfsr = 1;
  for (int round = 0; round < 24; ++round) {
    uint64_t C[5], B[25];
    for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; ++x) { uint64_t d = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1); for (int y = 0; y < 5; ++y) A[x + 5 * y] ^= d; }
    int x = 1, y = 0; uint64_t off[25] = {0};
    for (int t = 0; t < 24; ++t) { off[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; }
    for (x = 0; x < 5; ++x) for (y = 0; y < 5; ++y) B[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(A[x + 5 * y], off[x + 5 * y]);
    for (x = 0; x < 5; ++x) for (y = 0; y < 5; ++y) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    for (int j = 0; j <= 6; ++j) { if (lfsr & 1) A[0] ^= uint64_t(1) << ((1 << j) - 1); lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71); }
  }
}
inline Bytes keccak(const Bytes& msg, size_t rate, uint8_t suffix, size_t outlen) {
  Bytes m = msg; m += char(suffix);
  while (m.size() % rate) m += '\0';
  m.back() = char(uint8_t(m.back()) | 0x80);
  uint64_t A[25] = {0};
  for (size_t o = 0; o < m.size(); o += rate) { for (size_t i = 0; i < rate / 8; ++i) A[i] ^= le(m, o + 8 * i, 8); keccak_f(A); }
  Bytes out;
  while (true) { for (size_t i = 0; i < rate / 8; ++i) putle(out, A[i], 8); if (out.size() >= outlen) break; keccak_f(A); }
  out.resize(outlen); return out;
}
inline Bytes sha3(const Bytes& m, int bits) { return keccak(m, 200 - bits / 4, 0x06, bits / 8); }
inline Bytes shake(const Bytes& m, int bits, size_t n) { return keccak(m, 200 - bits / 4, 0x1f, n); }

inline Bytes blake2b(const Bytes& msg, size_t outlen, const Bytes& key = {}) {
  static const uint8_t S[12][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
  const uint64_t* IV = sha_const().h;
  Bytes m;
  if (!key.empty()) { m = key; m.resize(128); }
  m += msg;
  const uint64_t total = m.size();
  if (m.empty() || m.size() % 128) m.resize((m.size() / 128 + 1) * 128);
  uint64_t h[8]; for (int i = 0; i < 8; ++i) h[i] = IV[i];
  h[0] ^= 0x01010000ULL ^ (uint64_t(key.size()) << 8) ^ outlen;
  for (size_t o = 0; o < m.size(); o += 128) {
    const bool last = o + 128 == m.size();
    const uint64_t t = last ? total : o + 128;
    uint64_t v[16]; for (int i = 0; i < 8; ++i) v[i] = h[i], v[i + 8] = IV[i];
    v[12] ^= t; if (last) v[14] = ~v[14];
    auto G = [&](int a, int b, int c, int d, uint64_t x, uint64_t y) {
      v[a] += v[b] + x; v[d] = ror64(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = ror64(v[b] ^ v[c], 24);
      v[a] += v[b] + y; v[d] = ror64(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror64(v[b] ^ v[c], 63); };
    for (int r = 0; r < 12; ++r) {
      auto M = [&](int i) { return le(m, o + 8 * S[r][i], 8); };
      for (int i = 0; i < 4; ++i) G(i, i + 4, i + 8, i + 12, M(2 * i), M(2 * i + 1));
      for (int i = 0; i < 4; ++i) G(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, M(8 + 2 * i), M(9 + 2 * i));
    }
    for (int i = 0; i < 8; ++i) h[i] ^= v[i] ^ v[i + 8];
  }
  Bytes out; for (uint64_t x : h) putle(out, x, 8); out.resize(outlen); return out;
}

// BLAKE3: recursive definition over the whole input.
struct B3 {
  uint32_t key[8]; uint32_t flags;
  static const uint32_t* IV() { static uint32_t iv[8]; if (!iv[0]) for (int i = 0; i < 8; ++i) iv[i] = uint32_t(sha_const().h[i] >> 32); return iv; }
  static void compress(const uint32_t cv[8], const uint32_t blk[16], uint64_t ctr, uint32_t len, uint32_t fl, uint32_t out[16]) {
    uint32_t v[16], m[16]; memcpy(m, blk, sizeof m);
    for (int i = 0; i < 8; ++i) v[i] = cv[i];
    for (int i = 0; i < 4; ++i) v[8 + i] = IV()[i];
    v[12] = uint32_t(ctr); v[13] = uint32_t(ctr >> 32); v[14] = len; v[15] = fl;
    auto G = [&](int a, int b, int c, int d, uint32_t x, uint32_t y) {
      v[a] += v[b] + x; v[d] = ror32(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror32(v[b] ^ v[c], 12);
      v[a] += v[b] + y; v[d] = ror32(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = ror32(v[b] ^ v[c], 7); };
    static const int P[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
    for (int r = 0; r < 7; ++r) {
      for (int i = 0; i < 4; ++i) G(i, i + 4, i + 8, i + 12, m[2 * i], m[2 * i + 1]);
      for (int i = 0; i < 4; ++i) G(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, m[8 + 2 * i], m[9 + 2 * i]);
      uint32_t t[16]; for (int i = 0; i < 16; ++i) t[i] = m[P[i]]; memcpy(m, t, sizeof m);
    }
    for (int i = 0; i < 8; ++i) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ cv[i]; }
  }
  struct Node { uint32_t cv[8], blk[16]; uint64_t ctr; uint32_t len, fl; };
  Node chunk(const Bytes& s, uint64_t idx) const {
    Node n; memcpy(n.cv, key, 32); n.ctr = idx; size_t nb = s.empty() ? 1 : (s.size() + 63) / 64;
    for (size_t b = 0; b < nb; ++b) {
      Bytes blk = s.substr(b * 64, 64); n.len = uint32_t(blk.size()); blk.resize(64);
      for (int i = 0; i < 16; ++i) n.blk[i] = uint32_t(le(blk, 4 * i, 4));
      n.fl = flags | (b == 0 ? 1 : 0) | (b + 1 == nb ? 2 : 0);
      if (b + 1 < nb) { uint32_t o[16]; compress(n.cv, n.blk, n.ctr, n.len, n.fl, o); memcpy(n.cv, o, 32); }
    }
    return n;
  }
  Node tree(const Bytes& s, uint64_t idx) const {
    if (s.size() <= 1024) return chunk(s, idx);
    size_t chunks = (s.size() + 1023) / 1024, left = 1; while (left * 2 < chunks) left *= 2;
    Node l = tree(s.substr(0, left * 1024), idx), r = tree(s.substr(left * 1024), idx + left), p;
    uint32_t o[16];
    memcpy(p.cv, key, 32); p.ctr = 0; p.len = 64; p.fl = flags | 4;
    compress(l.cv, l.blk, l.ctr, l.len, l.fl, o); memcpy(p.blk, o, 32);
    compress(r.cv, r.blk, r.ctr, r.len, r.fl, o); memcpy(p.blk + 8, o, 32);
    return p;
  }
  Bytes digest(const Bytes& s, size_t n) const {
    Node r = tree(s, 0); Bytes out;
    for (uint64_t c = 0; out.size() < n; ++c) { uint32_t o[16]; compress(r.cv, r.blk, c, r.len, r.fl | 8, o); for (uint32_t v : o) putle(out, v, 4); }
    out.resize(n); return out;
  }
};
inline Bytes blake3(const Bytes& m, size_t n) { B3 b; memcpy(b.key, B3::IV(), 32); b.flags = 0; return b.digest(m, n); }
inline Bytes blake3_keyed(const Bytes& k, const Bytes& m, size_t n) { B3 b; for (int i = 0; i < 8; ++i) b.key[i] = uint32_t(le(k, 4 * i, 4)); b.flags = 16; return b.digest(m, n); }
inline Bytes blake3_derive(const Bytes& ctx, const Bytes& m, size_t n) {
  B3 b; memcpy(b.key, B3::IV(), 32); b.flags = 32; Bytes k = b.digest(ctx, 32);
  for (int i = 0; i < 8; ++i) b.key[i] = uint32_t(le(k, 4 * i, 4)); b.flags = 64; return b.digest(m, n);
}

template <class H> Bytes hmac(H h, size_t block, Bytes key, const Bytes& m) {
  if (key.size() > block) key = h(key);
  key.resize(block);
  Bytes i = key, o = key; for (auto& c : i) c = char(c ^ 0x36); for (auto& c : o) c = char(c ^ 0x5c);
  return h(o + h(i + m));
}

inline uint64_t siphash24(const Bytes& m, uint64_t k0, uint64_t k1) {
  uint64_t v0 = k0 ^ 0x736f6d6570736575ULL, v1 = k1 ^ 0x646f72616e646f6dULL, v2 = k0 ^ 0x6c7967656e657261ULL, v3 = k1 ^ 0x7465646279746573ULL;
  auto rnd = [&] { v0 += v1; v1 = rol64(v1, 13) ^ v0; v0 = rol64(v0, 32); v2 += v3; v3 = rol64(v3, 16) ^ v2; v0 += v3; v3 = rol64(v3, 21) ^ v0; v2 += v1; v1 = rol64(v1, 17) ^ v2; v2 = rol64(v2, 32); };
  Bytes p = m; while (p.size() % 8 != 7) p += '\0'; p += char(m.size());
  for (size_t o = 0; o < p.size(); o += 8) { uint64_t w = le(p, o, 8); v3 ^= w; rnd(); rnd(); v0 ^= w; }
  v2 ^= 0xff; rnd(); rnd(); rnd(); rnd(); return v0 ^ v1 ^ v2 ^ v3;
}

inline uint64_t xxh64(const Bytes& m, uint64_t seed) {
  const uint64_t P1 = 11400714785074694791ULL, P2 = 14029467366897019727ULL, P3 = 1609587929392839161ULL, P4 = 9650029242287828579ULL, P5 = 2870177450012600261ULL;
  auto round = [&](uint64_t a, uint64_t i) { return rol64(a + i * P2, 31) * P1; };
  uint64_t h; size_t p = 0;
  if (m.size() >= 32) {
    uint64_t a[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
    for (; p + 32 <= m.size(); p += 32) for (int i = 0; i < 4; ++i) a[i] = round(a[i], le(m, p + 8 * i, 8));
    h = rol64(a[0], 1) + rol64(a[1], 7) + rol64(a[2], 12) + rol64(a[3], 18);
    for (int i = 0; i < 4; ++i) h = (h ^ round(0, a[i])) * P1 + P4;
  } else h = seed + P5;
  h += m.size();
  for (; p + 8 <= m.size(); p += 8) h = rol64(h ^ round(0, le(m, p, 8)), 27) * P1 + P4;
  if (p + 4 <= m.size()) { h = rol64(h ^ le(m, p, 4) * P1, 23) * P2 + P3; p += 4; }
  for (; p < m.size(); ++p) h = rol64(h ^ uint8_t(m[p]) * P5, 11) * P1;
  h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; return h ^ h >> 32;
}
}  // namespace ref
