// Runs every thread the code under test starts to completion inside pthread_create. Sequential checks
// link this: they enumerate operation sequences, thread interleavings are the business of the
// scheduler-driven checks, and a thread that costs microseconds allows a deeper enumeration.
#include <pthread.h>
#include <atomic>
static std::atomic<unsigned long> next_id{0x100000};
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  *t = ++next_id;
  fn(arg);
  return 0;
}
extern "C" int pthread_join(pthread_t, void** r) {
  if (r) *r = nullptr;
  return 0;
}
extern "C" int pthread_detach(pthread_t) {
  return 0;
}
