#pragma once
#include "../tbbcore.h"
#include "task_group.h"
namespace tbb {
class task_arena {
 public:
  static const int automatic = -1;
  static const int not_initialized = -2;
  explicit task_arena(int conc = automatic, unsigned = 1) : conc_(conc) {}
  ~task_arena() { terminate(); }
  void initialize() {
    if (!a_) a_ = simtbb::arena_create(conc_);
  }
  void initialize(int c, unsigned = 1) {
    conc_ = c;
    initialize();
  }
  void terminate() {
    if (a_) simtbb::arena_destroy(a_);
    a_ = nullptr;
  }
  bool is_active() const { return a_ != nullptr; }
  int max_concurrency() const { return conc_ > 0 ? conc_ : simtbb::num_workers() + 1; }
  template <class F>
  auto execute(F&& f) -> decltype(f()) {
    initialize();
    struct Guard {
      simtbb::Arena* a;
      simtbb::Arena* saved;
      int ss, slot;
      explicit Guard(simtbb::Arena* x) : a(x) { slot = simtbb::arena_enter(a, &saved, &ss); }
      ~Guard() { simtbb::arena_leave(saved, ss, a, slot); }
    } g(a_);
    return f();
  }

 private:
  int conc_;
  simtbb::Arena* a_ = nullptr;
};
namespace this_task_arena {
inline int current_thread_index() { return simtbb::slot_index(); }
inline int max_concurrency() { return simtbb::num_workers() + 1; }
template <class F>
auto isolate(F&& f) -> decltype(f()) {
  struct Region {
    uint64_t saved = simtbb::isolate_enter();
    ~Region() { simtbb::isolate_leave(saved); }
  } region;
  return f();
}
}  // namespace this_task_arena
}  // namespace tbb
