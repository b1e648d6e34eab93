#define ref ref_impl
#include "ref_impl.h"
#undef ref
#include "ref_digest.h"
namespace ref {
using S = std::string;
S md5(const S& m) { return ref_impl::md5(m); }
S sha1(const S& m) { return ref_impl::sha1(m); }
S sha224(const S& m) { return ref_impl::sha224(m); }
S sha256(const S& m) { return ref_impl::sha256(m); }
S sha384(const S& m) { return ref_impl::sha384(m); }
S sha512(const S& m) { return ref_impl::sha512(m); }
S sha512_t(const S& m, int t) { return ref_impl::sha512_t(m, t); }
S sha3(const S& m, int b) { return ref_impl::sha3(m, b); }
S shake(const S& m, int b, size_t n) { return ref_impl::shake(m, b, n); }
S blake2b(const S& m, size_t n, const S& k) { return ref_impl::blake2b(m, n, k); }
S blake3(const S& m, size_t n) { return ref_impl::blake3(m, n); }
S blake3_keyed(const S& k, const S& m, size_t n) { return ref_impl::blake3_keyed(k, m, n); }
S blake3_derive(const S& c, const S& m, size_t n) { return ref_impl::blake3_derive(c, m, n); }
uint64_t siphash24(const S& m, uint64_t a, uint64_t b) { return ref_impl::siphash24(m, a, b); }
uint64_t xxh64(const S& m, uint64_t s) { return ref_impl::xxh64(m, s); }
}  // namespace ref
// Compute the constants once, before the driver forks.
static const bool kWarm = (ref_impl::md5(""), ref_impl::sha_const(), ref_impl::B3::IV(), true);
