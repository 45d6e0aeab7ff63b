#pragma once
#include <functional>
#include <list>
#include <mutex>
#include <utility>
#include "../tbbcore.h"
namespace tbb {
template <class T>
class enumerable_thread_specific {
 public:
  using iterator = typename std::list<T>::iterator;
  enumerable_thread_specific() : mk_([](std::list<T>& l) -> T& { return l.emplace_back(); }) {}
  explicit enumerable_thread_specific(const T& ex)
      : mk_([ex](std::list<T>& l) -> T& { return l.emplace_back(ex); }) {}
  template <class F, class = decltype(std::declval<F>()())>
  explicit enumerable_thread_specific(F f) : mk_([f](std::list<T>& l) -> T& { return l.emplace_back(f()); }) {}
  T& local() {
    bool e;
    return local(e);
  }
  T& local(bool& exists) {
    int me = sim::self();
    sim::Quiet q;
    for (auto& p : idx_)
      if (p.first == me) {
        exists = true;
        return *p.second;
      }
    exists = false;
    T& t = mk_(vals_);
    idx_.emplace_back(me, &t);
    return t;
  }
  iterator begin() { return vals_.begin(); }
  iterator end() { return vals_.end(); }
  size_t size() const { return vals_.size(); }
  bool empty() const { return vals_.empty(); }
  void clear() {
    vals_.clear();
    idx_.clear();
  }
  template <class F>
  T combine(F f) {
    if (vals_.empty()) return local();
    auto it = vals_.begin();
    T r = *it;
    for (++it; it != vals_.end(); ++it) r = f(r, *it);
    return r;
  }
  template <class F>
  void combine_each(F f) {
    for (auto& v : vals_) f(v);
  }

 private:
  std::list<T> vals_;
  std::list<std::pair<int, T*>> idx_;
  std::function<T&(std::list<T>&)> mk_;
};
}  // namespace tbb
