#pragma once
namespace tbb {
class auto_partitioner {};
class simple_partitioner {};
class static_partitioner {};
class affinity_partitioner {};
}  // namespace tbb
namespace simtbb {
template <class P>
struct always_split {
  static constexpr bool value = false;
};
template <>
struct always_split<tbb::simple_partitioner> {
  static constexpr bool value = true;
};
}  // namespace simtbb
