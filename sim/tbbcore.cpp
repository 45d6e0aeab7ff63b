// Simulated TBB scheduler core. Compiled without instrumentation: each function is atomic
// with respect to the simulated scheduler except at explicit sim:: calls.
#include "tbbcore.h"
#include <stdlib.h>
#include <string.h>

namespace simtbb {
struct Arena {
  Task* head;
  Task* tail;
  int n;
  int conc;       // max threads
  int started;    // worker threads running
  unsigned slots;  // occupied slot bits
  int closing;
  int live;
};
static const int MAXT = 3072;
static Arena* g_arena_of[MAXT];
static int g_slot_of[MAXT];
static Ctx* g_ctx_of[MAXT];
static uint64_t g_iso_of[MAXT];
static uint64_t g_next_iso;
static int g_workers = -1;
void set_workers(int n) { g_workers = n; }
int num_workers() { return g_workers < 0 ? 3 : g_workers; }

Ctx* current_ctx() { return g_ctx_of[sim::self()]; }
void push_ctx(Ctx* c, Ctx** s) {
  *s = g_ctx_of[sim::self()];
  g_ctx_of[sim::self()] = c;
}
void pop_ctx(Ctx* s) { g_ctx_of[sim::self()] = s; }
bool is_cancelled(const Ctx* c) {
  for (; c; c = c->parent)
    if (c->cancelled) return true;
  return false;
}
static int take_slot(Arena* a) {
  for (int i = 0; i < 31; ++i)
    if (!(a->slots & (1u << i))) {
      a->slots |= 1u << i;
      return i;
    }
  return 31;
}
Arena* arena_create(int conc) {
  sim::Quiet q;
  Arena* a = (Arena*)calloc(1, sizeof(Arena));
  a->conc = conc < 1 ? num_workers() + 1 : conc;
  a->live = 1;
  return a;
}
static Arena* my_arena() {
  int s = sim::self();
  if (!g_arena_of[s]) {
    g_arena_of[s] = arena_create(-1);
    g_arena_of[s]->slots = 1;
    g_slot_of[s] = 0;
  }
  return g_arena_of[s];
}
static int eligible(const Arena* a, uint64_t iso) {
  if (!iso) return a->n;
  int n = 0;
  for (Task* t = a->head; t; t = t->next) n += t->iso == iso;
  return n;
}
static Task* take(Arena* a, uint64_t iso) {
  int n = eligible(a, iso);
  if (!n) return nullptr;
  uint32_t k = n > 1 ? sim::choose((uint32_t)n, 0.5) : 0;
  n = eligible(a, iso);
  if (!n) return nullptr;
  k %= n;
  Task* prev = nullptr;
  Task* t = a->head;
  while ((iso && t->iso != iso) || k--) {
    prev = t;
    t = t->next;
  }
  if (prev) prev->next = t->next;
  else a->head = t->next;
  --a->n;
  return t;
}
static void execute(Arena* a, Task* t) {
  Ctx* c = t->ctx;
  int s = sim::self();
  uint64_t saved = g_iso_of[s];
  g_iso_of[s] = t->iso;
  t->fn(t);  // destroys t
  g_iso_of[s] = saved;
  --c->pending;
  sim::wake_all(a);
}
static void worker(void* p) {
  Arena* a = (Arena*)p;
  int s = sim::self();
  sim::set_daemon(true);
  g_arena_of[s] = a;
  a->slots |= 1;
  int slot = take_slot(a);
  g_slot_of[s] = slot;
  for (;;) {
    Task* t = take(a, 0);
    if (t) {
      execute(a, t);
    } else {
      if (a->closing) break;
      sim::block_on(a, "tbb-idle");
    }
  }
  a->slots &= ~(1u << slot);
  if (--a->live == 0) free(a);
}
void spawn(Task* t) {
  Arena* a = my_arena();
  ++t->ctx->pending;
  t->iso = g_iso_of[sim::self()];
  t->next = a->head;  // LIFO
  a->head = t;
  ++a->n;
  int want = a->conc - 1;
  if (want > num_workers()) want = num_workers();
  if (a->started < want && a->started < a->n) {
    ++a->started;
    ++a->live;
    sim::Quiet q;
    sim::spawn(worker, a, true);
  }
  sim::wake_all(a);
  sim::yield_point();
}
void wait(Ctx* c) {
  sim::yield_point();
  Arena* a = my_arena();
  while (c->pending) {
    Task* t = take(a, g_iso_of[sim::self()]);
    if (t) execute(a, t);
    else if (c->pending) sim::block_on(a, "tbb-wait");
  }
}
int slot_index() {
  my_arena();
  return g_slot_of[sim::self()];
}
void arena_destroy(Arena* a) {
  if (!a) return;
  a->closing = 1;
  sim::wake_all(a);
  sim::Quiet q;
  if (--a->live == 0) free(a);
}
int arena_enter(Arena* a, Arena** saved, int* saved_slot) {
  int s = sim::self();
  my_arena();
  *saved = g_arena_of[s];
  *saved_slot = g_slot_of[s];
  g_arena_of[s] = a;
  int slot;
  if (!(a->slots & 1)) {
    a->slots |= 1;
    slot = 0;
  } else {
    slot = take_slot(a);
  }
  g_slot_of[s] = slot;
  return slot;
}
void arena_leave(Arena* saved, int saved_slot, Arena* a, int slot) {
  int s = sim::self();
  a->slots &= ~(1u << slot);
  g_arena_of[s] = saved;
  g_slot_of[s] = saved_slot;
}
uint64_t isolate_enter() {
  int s = sim::self();
  uint64_t saved = g_iso_of[s];
  g_iso_of[s] = ++g_next_iso;
  return saved;
}
void isolate_leave(uint64_t saved) { g_iso_of[sim::self()] = saved; }
bool want_split(unsigned depth) { return sim::choose(2, depth < 2 ? 0.8 : depth < 4 ? 0.45 : 0.2); }
}  // namespace simtbb
