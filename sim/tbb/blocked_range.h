#pragma once
#include <cstddef>
namespace tbb {
class split {};
class proportional_split {
 public:
  proportional_split(size_t l = 1, size_t r = 1) : l_(l), r_(r) {}
  size_t left() const { return l_; }
  size_t right() const { return r_; }
  operator split() const { return split(); }

 private:
  size_t l_, r_;
};
template <typename Value>
class blocked_range {
 public:
  using const_iterator = Value;
  using size_type = std::size_t;
  blocked_range(Value b, Value e, size_type g = 1) : e_(e), b_(b), g_(g) {}
  blocked_range(blocked_range& r, split) : e_(r.e_), b_(r.b_ + (r.e_ - r.b_) / 2), g_(r.g_) { r.e_ = b_; }
  const_iterator begin() const { return b_; }
  const_iterator end() const { return e_; }
  size_type size() const { return size_type(e_ - b_); }
  size_type grainsize() const { return g_; }
  bool empty() const { return !(b_ < e_); }
  bool is_divisible() const { return g_ < size(); }

 private:
  Value e_;
  Value b_;
  size_type g_;
};
}  // namespace tbb
