#pragma once
#include "absl_shim/hash.h"
#include <map>
#include <set>

// Hash containers: elements live in a vector in an order drawn from the hash seed; every insertion that adds an element
// relocates all of them ("flat" flavour), as growth of the real container may at any time. Node flavour: elements keep
// their addresses. Ordered containers: std containers with heterogeneous access.
namespace absl {
namespace container_internal {
template <typename H> concept Transparent = requires { typename H::is_transparent; };
template <typename V> struct FlatSlot {
  using Ptr = std::unique_ptr<V>;
};
template <typename K, typename V, typename KeyOf, typename H, typename E, bool Flat>
class Table {
  using Slot = std::unique_ptr<V>;

 public:
  using key_type = K;
  using value_type = V;
  using hasher = H;
  using key_equal = E;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  template <bool C> class It {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = V;
    using difference_type = ptrdiff_t;
    using reference = std::conditional_t<C, const V&, V&>;
    using pointer = std::conditional_t<C, const V*, V*>;
    It() = default;
    template <bool D> requires(C && !D) It(const It<D>& o) : p_(o.p_) {}
    reference operator*() const { return **p_; }
    pointer operator->() const { return p_->get(); }
    It& operator++() { ++p_; return *this; }
    It operator++(int) { It t = *this; ++p_; return t; }
    friend bool operator==(const It& a, const It& b) { return a.p_ == b.p_; }

   private:
    friend class Table;
    template <bool> friend class It;
    explicit It(const Slot* p) : p_(p) {}
    const Slot* p_ = nullptr;
  };
  using iterator = It<false>;
  using const_iterator = It<true>;
  Table() = default;
  explicit Table(size_t, H h = {}, E e = {}) : h_(h), e_(e) {}
  Table(std::initializer_list<V> l) { for (const auto& v : l) insert(v); }
  template <typename I> Table(I b, I e) { for (; b != e; ++b) insert(*b); }
  Table(const Table& o) : h_(o.h_), e_(o.e_) { for (const auto& s : o.s_) s_.push_back(std::make_unique<V>(*s)); }
  Table& operator=(const Table& o) { if (this != &o) { Table t(o); *this = std::move(t); } return *this; }
  Table(Table&& o) noexcept : s_(std::move(o.s_)), h_(o.h_), e_(o.e_) { o.s_.clear(); }
  Table& operator=(Table&& o) noexcept { s_ = std::move(o.s_); o.s_.clear(); return *this; }
  iterator begin() { return iterator(s_.data()); }
  iterator end() { return iterator(s_.data() + s_.size()); }
  const_iterator begin() const { return const_iterator(s_.data()); }
  const_iterator end() const { return const_iterator(s_.data() + s_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void clear() { s_.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  void swap(Table& o) { s_.swap(o.s_); }
  template <typename Q = K> iterator find(const Q& k) { return iterator(s_.data() + Index(k)); }
  template <typename Q = K> const_iterator find(const Q& k) const { return const_iterator(s_.data() + Index(k)); }
  template <typename Q = K> bool contains(const Q& k) const { return Index(k) < s_.size(); }
  template <typename Q = K> size_t count(const Q& k) const { return contains(k); }
  std::pair<iterator, bool> insert(const V& v) { return emplace(v); }
  std::pair<iterator, bool> insert(V&& v) { return emplace(std::move(v)); }
  template <typename P> requires(std::is_constructible_v<V, P&&> && !std::is_same_v<std::remove_cvref_t<P>, V>)
  std::pair<iterator, bool> insert(P&& p) { return emplace(std::forward<P>(p)); }
  iterator insert(const_iterator, const V& v) { return emplace(v).first; }
  template <typename I> requires requires(I i) { *i; ++i; } void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<V> l) { for (const auto& v : l) insert(v); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) {
    auto n = std::make_unique<V>(std::forward<A>(a)...);
    const size_t i = Index(KeyOf{}(*n));
    if (i < s_.size()) return {iterator(s_.data() + i), false};
    return {Add(std::move(n)), true};
  }
  void erase(iterator it) { s_.erase(s_.begin() + (it.p_ - s_.data())); }
  void erase(const_iterator it) { s_.erase(s_.begin() + (it.p_ - s_.data())); }
  iterator erase(const_iterator b, const_iterator e) {
    const size_t at = b.p_ - s_.data();
    s_.erase(s_.begin() + at, s_.begin() + at + (e.p_ - b.p_));
    return iterator(s_.data() + at);
  }
  template <typename Q = K> requires(!std::is_convertible_v<Q, const_iterator>)
  size_t erase(const Q& k) { const size_t i = Index(k); if (i >= s_.size()) return 0; s_.erase(s_.begin() + i); return 1; }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (const auto& s : a.s_) { auto it = b.find(KeyOf{}(*s)); if (it == b.end() || !(*it == *s)) return false; }
    return true;
  }

 protected:
  template <typename Q> size_t Index(const Q& k) const {
    for (size_t i = 0; i < s_.size(); ++i) if (e_(KeyOf{}(*s_[i]), k)) return i;
    return s_.size();
  }
  iterator Add(Slot n) {
    const size_t at = (h_(KeyOf{}(*n)) ^ shim::hash_seed) % (s_.size() + 1);
    s_.insert(s_.begin() + at, std::move(n));
    if constexpr (Flat && std::is_move_constructible_v<V>) {
      for (auto& s : s_) { auto moved = std::make_unique<V>(std::move(*s)); s = std::move(moved); }
    }
    return iterator(s_.data() + at);
  }
  std::vector<Slot> s_;
  H h_{};
  E e_{};
};
struct First { template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct Ident { template <typename P> const auto& operator()(const P& p) const { return p; } };
template <typename K, typename V, typename H, typename E, bool Flat>
class MapTable : public Table<K, std::pair<const K, V>, First, H, E, Flat> {
  using B = Table<K, std::pair<const K, V>, First, H, E, Flat>;

 public:
  using mapped_type = V;
  using typename B::iterator;
  using B::B;
  MapTable() = default;
  template <typename Q, typename... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    const size_t i = this->Index(k);
    if (i < this->s_.size()) return {this->begin_at(i), false};
    return {this->Add(std::make_unique<std::pair<const K, V>>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...))), true};
  }
  template <typename Q, typename W> std::pair<iterator, bool> insert_or_assign(Q&& k, W&& v) {
    const size_t i = this->Index(k);
    if (i < this->s_.size()) { this->s_[i]->second = std::forward<W>(v); return {begin_at(i), false}; }
    return try_emplace(std::forward<Q>(k), std::forward<W>(v));
  }
  template <typename Q = K> V& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  template <typename Q = K> V& at(const Q& k) { auto it = this->find(k); if (it == this->end()) std::abort(); return it->second; }
  template <typename Q = K> const V& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) std::abort(); return it->second; }

 private:
  iterator begin_at(size_t i) { auto it = this->begin(); while (i--) ++it; return it; }
};
template <typename Base, typename K, typename V>
class OrderedMap : public Base {
 public:
  using Base::Base;
  OrderedMap() = default;
  OrderedMap(const Base& b) : Base(b) {}
  using Base::operator[];
  using Base::try_emplace;
  using Base::insert_or_assign;
  using Base::at;
  template <typename Q> requires(!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>)
  V& operator[](Q&& k) { return this->try_emplace(std::forward<Q>(k)).first->second; }
  template <typename Q, typename... A> requires(!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>)
  auto try_emplace(Q&& k, A&&... a) { return Base::try_emplace(K(std::forward<Q>(k)), std::forward<A>(a)...); }
  template <typename Q, typename W> requires(!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>)
  auto insert_or_assign(Q&& k, W&& v) { return Base::insert_or_assign(K(std::forward<Q>(k)), std::forward<W>(v)); }
  template <typename Q> requires(!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>)
  V& at(const Q& k) { auto it = this->find(K(k)); if (it == this->end()) std::abort(); return it->second; }
  template <typename Q> requires(!std::is_same_v<std::remove_cvref_t<Q>, K> && std::is_constructible_v<K, Q>)
  const V& at(const Q& k) const { auto it = this->find(K(k)); if (it == this->end()) std::abort(); return it->second; }
};
}  // namespace container_internal
template <typename K, typename V, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
using flat_hash_map = container_internal::MapTable<K, V, H, E, true>;
template <typename K, typename V, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
using node_hash_map = container_internal::MapTable<K, V, H, E, false>;
template <typename K, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
using flat_hash_set = container_internal::Table<K, K, container_internal::Ident, H, E, true>;
template <typename K, typename H = container_internal::DefHash<K>, typename E = container_internal::DefEq<K>, typename A = void>
using node_hash_set = container_internal::Table<K, K, container_internal::Ident, H, E, false>;
template <typename K, typename V, typename L = container_internal::DefLess<K>, typename A = std::allocator<std::pair<const K, V>>>
using btree_map = container_internal::OrderedMap<std::map<K, V, L, A>, K, V>;
template <typename K, typename V, typename L = container_internal::DefLess<K>, typename A = std::allocator<std::pair<const K, V>>>
using btree_multimap = std::multimap<K, V, L, A>;
template <typename K, typename L = container_internal::DefLess<K>, typename A = std::allocator<K>>
using btree_set = std::set<K, L, A>;
template <typename K, typename L = container_internal::DefLess<K>, typename A = std::allocator<K>>
using btree_multiset = std::multiset<K, L, A>;
template <typename T, size_t N, typename A = std::allocator<T>> using InlinedVector = std::vector<T, A>;
}  // namespace absl
