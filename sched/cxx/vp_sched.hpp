// Stand-ins for std::thread, std::mutex and std::condition_variable: every operation is a scheduling point of a
// cooperative scheduler that explores all the interleavings up to a bound on preemptions (vp_sched.cpp).
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

namespace vps {
void born(void *o);
void dead(void *o);
void lock(void *m);
bool try_lock(void *m);
void unlock(void *m);
void wait(void *cv, void *m);
void notify(void *cv, bool all);
int spawn(std::function<void()> f);
void join(int t);
void fail(const char *what);
}
extern "C" int vp_max_threads();

namespace std {
class vp_mutex {
public:
  vp_mutex() { vps::born(this); }
  ~vp_mutex() { vps::dead(this); }
  vp_mutex(const vp_mutex &) = delete;
  vp_mutex &operator=(const vp_mutex &) = delete;
  void lock() { vps::lock(this); }
  bool try_lock() { return vps::try_lock(this); }
  void unlock() { vps::unlock(this); }
};
class vp_condition_variable {
public:
  vp_condition_variable() { vps::born(this); }
  ~vp_condition_variable() { vps::dead(this); }
  vp_condition_variable(const vp_condition_variable &) = delete;
  vp_condition_variable &operator=(const vp_condition_variable &) = delete;
  void notify_one() { vps::notify(this, false); }
  void notify_all() { vps::notify(this, true); }
  void wait(unique_lock<vp_mutex> &lk) { vps::wait(this, lk.mutex()); }
  template <class P> void wait(unique_lock<vp_mutex> &lk, P p) { while (!p()) wait(lk); }
};
class vp_thread {
  int t = -1;
public:
  vp_thread() {}
  template <class F, class... A> explicit vp_thread(F &&f, A &&...a) {
    t = vps::spawn(std::bind(std::forward<F>(f), std::forward<A>(a)...));
  }
  vp_thread(const vp_thread &) = delete;
  vp_thread(vp_thread &&o) { t = o.t; o.t = -1; }
  vp_thread &operator=(vp_thread &&o) {
    if (t >= 0) vps::fail("a joinable thread was overwritten");
    t = o.t; o.t = -1;
    return *this;
  }
  ~vp_thread() { if (t >= 0) vps::fail("a joinable thread was destroyed"); }
  bool joinable() const { return t >= 0; }
  void join() { if (t < 0) vps::fail("join of a thread that is not joinable"); vps::join(t); t = -1; }
  void detach() { t = -1; }
  static unsigned hardware_concurrency() { return 2; }
};
}
#define thread vp_thread
#define mutex vp_mutex
#define condition_variable vp_condition_variable
