#ifndef COMPAT_ABSL_SYNCHRONIZATION_MUTEX_H_
#define COMPAT_ABSL_SYNCHRONIZATION_MUTEX_H_
#include <mutex>
#include <shared_mutex>
#include "absl/base/thread_annotations.h"
namespace absl {
class Mutex {
 public:
  void Lock() { m_.lock(); } void Unlock() { m_.unlock(); }
  void ReaderLock() { m_.lock_shared(); } void ReaderUnlock() { m_.unlock_shared(); }
  bool TryLock() { return m_.try_lock(); }
  void AssertHeld() {}
 private: std::shared_mutex m_;
};
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); } ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock&) = delete; private: Mutex* m_; };
class ReaderMutexLock { public: explicit ReaderMutexLock(Mutex* m) : m_(m) { m->ReaderLock(); } ~ReaderMutexLock() { m_->ReaderUnlock(); } private: Mutex* m_; };
using WriterMutexLock = MutexLock;
}
#endif
