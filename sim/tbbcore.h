// Simulated TBB: scheduler core interface (core in tbbcore.cpp, templates in tbb/*.h).
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <new>
#include <utility>
#include "sim.h"

namespace simtbb {
struct Arena;
struct Ctx {
  Ctx* parent = nullptr;  // cancellation propagates down
  int cancelled = 0;
  int pending = 0;
  bool has_exc = false;
  std::exception_ptr exc;
};
struct Task {
  void (*fn)(Task*) = nullptr;
  Ctx* ctx = nullptr;
  Task* next = nullptr;
  uint64_t iso = 0;  // isolation region the task was spawned in
};
void set_workers(int n);  // per arena; scenario knob
int num_workers();
Ctx* current_ctx();
void push_ctx(Ctx* c, Ctx** saved);
void pop_ctx(Ctx* saved);
bool is_cancelled(const Ctx* c);
void spawn(Task* t);
void wait(Ctx* c);  // helps until c->pending == 0
int slot_index();
Arena* arena_create(int concurrency);
void arena_destroy(Arena*);
int arena_enter(Arena*, Arena** saved, int* saved_slot);
void arena_leave(Arena* saved, int saved_slot, Arena*, int slot);
bool want_split(unsigned depth);
// this_task_arena::isolate(): until leave, waits of this thread run only tasks spawned
// within the same region.
uint64_t isolate_enter();
void isolate_leave(uint64_t saved);

// Runs f under ctx; the first exception wins and cancels the rest.
template <class F>
void guarded(Ctx* c, F&& f) {
  if (is_cancelled(c)) return;
  Ctx* saved;
  push_ctx(c, &saved);
  try {
    f();
  } catch (...) {
    if (!c->has_exc) {
      c->has_exc = true;
      c->exc = std::current_exception();
    }
    c->cancelled = 1;
  }
  pop_ctx(saved);
}
template <class F>
struct FnTask : Task {
  F f;
  explicit FnTask(F&& g) : f(std::move(g)) {}
};
template <class F>
void spawn_fn(Ctx* c, F f) {
  FnTask<F>* t;
  {
    sim::Quiet q;
    t = new FnTask<F>(std::move(f));
  }
  t->ctx = c;
  t->fn = [](Task* p) {
    auto* me = static_cast<FnTask<F>*>(p);
    guarded(me->ctx, me->f);
    sim::Quiet q;
    delete me;
  };
  spawn(t);
}
inline void rethrow(Ctx& c) {
  if (c.has_exc) {
    auto e = c.exc;
    c.exc = nullptr;
    c.has_exc = false;
    std::rethrow_exception(e);
  }
}
}  // namespace simtbb
