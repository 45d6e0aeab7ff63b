#pragma once
#include <memory>
#include "../tbbcore.h"
namespace tbb {
enum task_group_status { not_complete, complete, canceled };
class task_group_context {
 public:
  enum kind_type { isolated, bound };
  task_group_context(kind_type k = bound) : k_(k) {
    if (k == bound) c_.parent = simtbb::current_ctx();
  }
  bool cancel_group_execution() {
    if (c_.cancelled) return false;
    c_.cancelled = 1;
    return true;
  }
  bool is_group_execution_cancelled() const { return simtbb::is_cancelled(&c_); }
  void reset() { c_.cancelled = 0; }
  simtbb::Ctx c_;
  kind_type k_;
};
class task_group {
 public:
  task_group() { own_.parent = simtbb::current_ctx(); }
  explicit task_group(task_group_context& c) : c_(&c.c_) {}
  ~task_group() {
    if (c_->pending) {
      c_->cancelled = 1;
      simtbb::wait(c_);
    }
  }
  task_group(const task_group&) = delete;
  template <class F>
  void run(F f) {
    simtbb::spawn_fn(c_, std::move(f));
  }
  task_group_status wait() {
    simtbb::wait(c_);
    bool canc = simtbb::is_cancelled(c_);
    c_->cancelled = 0;
    simtbb::rethrow(*c_);
    return canc ? canceled : complete;
  }
  template <class F>
  task_group_status run_and_wait(const F& f) {
    simtbb::guarded(c_, f);
    return wait();
  }
  void cancel() { c_->cancelled = 1; }

 private:
  simtbb::Ctx own_;
  simtbb::Ctx* c_ = &own_;
};
inline bool is_current_task_group_canceling() { return simtbb::is_cancelled(simtbb::current_ctx()); }
}  // namespace tbb
