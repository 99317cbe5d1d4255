#pragma once
#include <boost/asio/thread_pool.hpp>
#include <type_traits>
namespace boost::asio {
template <class F> void post(thread_pool &, F &&Fn) {
  using T = symx_tasks::TaskOf<std::decay_t<F>>;
  if (symx_tasks::Queue) {
    symx_tasks::Queue->push_back(new T(std::decay_t<F>(std::forward<F>(Fn))));
    return;
  }
  std::decay_t<F> X(std::forward<F>(Fn));
  X();
}
} // namespace boost::asio
