#pragma once
#include "absl_shim/base.h"
namespace absl {
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  Mutex(const Mutex&) = delete;
  void Lock() { Op(0); }
  void Unlock() { Op(1); }
  void ReaderLock() { Op(2); }
  void ReaderUnlock() { Op(3); }
  void WriterLock() { Op(0); }
  void WriterUnlock() { Op(1); }
  void lock() { Op(0); }
  void unlock() { Op(1); }
  void lock_shared() { Op(2); }
  void unlock_shared() { Op(3); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
 private:
  void Op(int o) { if (shim::mutex_op) shim::mutex_op(this, o); }
  [[maybe_unused]] char pad_ = 0;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  ~MutexLock() { m_->Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex* m_;
};
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* m) : m_(m) { m_->ReaderLock(); }
  explicit ReaderMutexLock(Mutex& m) : m_(&m) { m_->ReaderLock(); }
  ~ReaderMutexLock() { m_->ReaderUnlock(); }
 private:
  Mutex* m_;
};
using WriterMutexLock = MutexLock;
}  // namespace absl
