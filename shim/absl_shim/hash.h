#pragma once
#include "absl_shim/strings.h"

namespace absl {
namespace hash_internal {
class State {
 public:
  explicit State(uint64_t s) : h_(s) {}
  State(State&&) = default;
  State& operator=(State&&) = default;
  static State combine(State s) { return s; }
  template <typename T, typename... R> static State combine(State s, const T& v, const R&... r);
  template <typename T> static State combine_contiguous(State s, const T* p, size_t n) {
    if constexpr (std::is_integral_v<T> && sizeof(T) == 1) s.Bytes(p, n);
    else for (size_t i = 0; i < n; ++i) s = combine(std::move(s), p[i]);
    return s;
  }
  template <typename It> static State combine_unordered(State s, It b, It e) {
    uint64_t sum = 0, n = 0;
    for (; b != e; ++b, ++n) { State t(s.h_); sum += combine(std::move(t), *b).Get(); }
    s.Word(sum); s.Word(n);
    return s;
  }
  void Word(uint64_t v) { h_ = (h_ ^ v) * 0x9E3779B97F4A7C15ULL; h_ ^= h_ >> 32; }
  void Bytes(const void* p, size_t n) { const auto* c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) h_ = (h_ ^ c[i]) * 0x100000001B3ULL; Word(n); }
  uint64_t Get() const { return h_ ^ (h_ >> 29); }

 private:
  uint64_t h_;
};
template <typename T> concept HasAbslHash = requires(State s, const T& v) { { AbslHashValue(std::move(s), v) } -> std::same_as<State>; };
template <typename T> concept Tuple = requires { std::tuple_size<T>::value; };
template <typename T> concept Range = requires(const T& v) { std::begin(v); std::end(v); };
template <typename T> concept Unordered = Range<T> && requires { typename T::hasher; };
template <typename T> State Hash1(State s, const T& v) {
  if constexpr (HasAbslHash<T>) return AbslHashValue(std::move(s), v);
  else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) { s.Word(static_cast<uint64_t>(v)); return s; }
  else if constexpr (std::is_floating_point_v<T>) { double d = v == 0 ? 0.0 : double(v); uint64_t u; std::memcpy(&u, &d, 8); s.Word(u); return s; }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { const std::string_view x(v); s.Bytes(x.data(), x.size()); return s; }
  else if constexpr (std::is_pointer_v<T>) { s.Word(reinterpret_cast<uintptr_t>(v)); return s; }
  else if constexpr (std::is_same_v<T, std::nullopt_t> || std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullptr_t>) { s.Word(0); return s; }
  else if constexpr (Unordered<T>) return State::combine_unordered(std::move(s), v.begin(), v.end());
  else if constexpr (Range<T>) { size_t n = 0; for (const auto& x : v) { s = State::combine(std::move(s), x); ++n; } s.Word(n); return s; }
  else if constexpr (requires { v.has_value(); *v; }) { if (v.has_value()) s = State::combine(std::move(s), *v); s.Word(v.has_value()); return s; }
  else if constexpr (requires { v.get(); *v; }) { s.Word(reinterpret_cast<uintptr_t>(v.get())); return s; }
  else if constexpr (requires { v.index(); v.valueless_by_exception(); }) { s.Word(v.index()); std::visit([&](const auto& x) { s = State::combine(std::move(s), x); }, v); return s; }
  else if constexpr (requires { v.get(); }) return State::combine(std::move(s), v.get());
  else if constexpr (Tuple<T>) { std::apply([&](const auto&... x) { s = State::combine(std::move(s), x...); }, v); return s; }
  else { static_assert(requires { std::hash<T>{}(v); }, "not hashable by the shim"); s.Word(std::hash<T>{}(v)); return s; }
}
template <typename T, typename... R> State State::combine(State s, const T& v, const R&... r) { return combine(Hash1(std::move(s), v), r...); }
}  // namespace hash_internal
using HashState = hash_internal::State;
template <int&..., typename... T> size_t HashOf(const T&... v) { return hash_internal::State::combine(hash_internal::State(shim::hash_seed ^ 0xABCDEF0123456789ULL), v...).Get(); }
template <typename T> struct Hash { size_t operator()(const T& v) const { return HashOf(v); } };

namespace container_internal {
template <typename T> concept Stringish = std::is_convertible_v<const T&, std::string_view>;
struct StringHash { using is_transparent = void; size_t operator()(std::string_view v) const { return HashOf(v); } };
struct StringEq { using is_transparent = void; bool operator()(std::string_view a, std::string_view b) const { return a == b; } };
template <typename K> using DefHash = std::conditional_t<Stringish<K>, StringHash, Hash<K>>;
template <typename K> using DefEq = std::conditional_t<Stringish<K>, StringEq, std::equal_to<K>>;
template <typename K> using DefLess = std::conditional_t<Stringish<K>, std::less<>, std::less<K>>;
}  // namespace container_internal
// ---- default hashers for the containers below
template <typename T> using shim_hash = container_internal::DefHash<T>;
}  // namespace absl
