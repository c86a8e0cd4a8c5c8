#pragma once
// stand-in for cpp-taskflow: tasks are simulated threads, started in an order the scheduler draws
#include <chrono>
#include <cstddef>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <list>
#include <numeric>
#include <optional>
#include <variant>
#include <array>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <stack>
#include <unordered_set>
#include <algorithm>

#include "simrt.h"

namespace tf {
extern int default_workers;
struct Node;
struct Flow;
struct Run;

class Task {
 public:
  Task() = default;
  explicit Task(Node* n) : n_(n) {}
  template <class... T>
  Task& precede(T&&... t) {
    (edge(n_, t.n_), ...);
    return *this;
  }
  template <class... T>
  Task& succeed(T&&... t) {
    (edge(t.n_, n_), ...);
    return *this;
  }
  Task& name(const std::string&) { return *this; }
  bool empty() const { return n_ == nullptr; }
  static void edge(Node* a, Node* b);
  Node* n_ = nullptr;
};

class Taskflow {
 public:
  Taskflow();
  ~Taskflow();
  Taskflow(const Taskflow&) = delete;
  Taskflow& operator=(const Taskflow&) = delete;
  template <class F>
  Task emplace(F&& f) {
    return add(std::function<void()>(std::forward<F>(f)));
  }
  bool empty() const;
  size_t num_tasks() const;
  void clear();

 private:
  friend class Executor;
  Task add(std::function<void()> f);
  Flow* flow_;
};

class RunFuture {
 public:
  RunFuture() = default;
  explicit RunFuture(std::shared_ptr<Run> r) : r_(r) {}
  bool valid() const { return bool(r_); }
  void wait() const { wait_us(-1); }
  void get() { wait_us(-1); }
  template <class R, class P>
  std::future_status wait_for(const std::chrono::duration<R, P>& d) const {
    return wait_us(std::chrono::duration_cast<std::chrono::microseconds>(d).count())
        ? std::future_status::ready
        : std::future_status::timeout;
  }
  template <class C, class D>
  std::future_status wait_until(const std::chrono::time_point<C, D>& t) const {
    auto d = t - C::now();
    return wait_for(d.count() < 0 ? decltype(d)(0) : d);
  }

 private:
  bool wait_us(int64_t us) const;
  std::shared_ptr<Run> r_;
};

struct ExecutorImpl;
class Executor {
 public:
  explicit Executor(size_t n = 0);
  ~Executor();
  Executor(const Executor&) = delete;
  RunFuture run(Taskflow& t);
  template <class C>
  RunFuture run(Taskflow& t, C&& c) {
    return run_cb(t, std::function<void()>(std::forward<C>(c)));
  }
  void wait_for_all();
  size_t num_workers() const;

 private:
  RunFuture run_cb(Taskflow& t, std::function<void()> cb);
  ExecutorImpl* impl_;
};
}  // namespace tf
