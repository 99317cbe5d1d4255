// Stand-in for the worker threads of the server: when a task that was posted
// runs is decided by the harness (default: at once). One thread runs.
#pragma once
#include <boost/version.hpp>
#include <cstddef>
#include <functional>
#include <memory>
#include <vector>
namespace symx_tasks {
struct Task {
  virtual ~Task() = default;
  virtual void run() = 0;
};
template <class F> struct TaskOf : Task {
  F Fn;
  explicit TaskOf(F &&X) : Fn(std::move(X)) {}
  void run() override { Fn(); }
};
// Null: run at once
inline std::vector<Task *> *Queue;
} // namespace symx_tasks
namespace boost::asio {
namespace detail {
inline long default_thread_pool_size() { return 1; }
} // namespace detail
struct thread_pool {
  thread_pool() = default;
  explicit thread_pool(std::size_t) {}
  void join() {}
};
} // namespace boost::asio
