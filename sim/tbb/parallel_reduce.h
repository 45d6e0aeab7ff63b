#pragma once
#include "parallel_for.h"
namespace simtbb {
// Follows TBB's protocol: a sub-range is either folded into the running value (not
// stolen) or reduced from the identity and joined on the right (stolen).
template <class Range, class Value, class F, class R>
Value preduce(Ctx* c, Range r, const Value& identity, Value v, const F& f, const R& red, unsigned depth, bool always) {
  if (is_cancelled(c)) return v;
  if (r.is_divisible() && (always || want_split(depth))) {
    Range right(r, tbb::split());
    if (sim::choose(3, 0.66) == 0) {
      v = preduce(c, r, identity, std::move(v), f, red, depth + 1, always);
      return preduce(c, right, identity, std::move(v), f, red, depth + 1, always);
    }
    Ctx sub;
    sub.parent = c;
    Value rv(identity);
    spawn_fn(&sub, [&sub, right, &identity, &rv, &f, &red, depth, always] {
      rv = preduce(&sub, right, identity, Value(identity), f, red, depth + 1, always);
    });
    try {
      v = preduce(c, r, identity, std::move(v), f, red, depth + 1, always);
    } catch (...) {
      sub.cancelled = 1;
      wait(&sub);
      throw;
    }
    wait(&sub);
    rethrow(sub);
    if (is_cancelled(c)) return v;
    return red(std::move(v), std::move(rv));
  }
  return f(r, std::move(v));
}
template <class Range, class Value, class F, class R>
Value run_preduce(const Range& r, const Value& id, const F& f, const R& red, bool always) {
  Ctx c;
  c.parent = current_ctx();
  Value out(id);
  if (!r.empty()) {
    guarded(&c, [&] { out = preduce(&c, r, id, Value(id), f, red, 0, always); });
    wait(&c);
    rethrow(c);
  }
  return out;
}
template <class Range, class Body>
void breduce(Ctx* c, Range r, Body& b, unsigned depth, bool always) {
  if (is_cancelled(c)) return;
  if (r.is_divisible() && (always || want_split(depth))) {
    Range right(r, tbb::split());
    if (sim::choose(3, 0.66) == 0) {
      breduce(c, r, b, depth + 1, always);
      breduce(c, right, b, depth + 1, always);
      return;
    }
    Ctx sub;
    sub.parent = c;
    Body rb(b, tbb::split());
    spawn_fn(&sub, [&sub, right, &rb, depth, always] { breduce(&sub, right, rb, depth + 1, always); });
    try {
      breduce(c, r, b, depth + 1, always);
    } catch (...) {
      sub.cancelled = 1;
      wait(&sub);
      throw;
    }
    wait(&sub);
    rethrow(sub);
    if (!is_cancelled(c)) b.join(rb);
    return;
  }
  b(r);
}
}  // namespace simtbb
namespace tbb {
template <class Range, class Value, class F, class R>
Value parallel_reduce(const Range& r, const Value& id, const F& f, const R& red) {
  return simtbb::run_preduce(r, id, f, red, false);
}
template <class Range, class Value, class F, class R, class P>
Value parallel_reduce(const Range& r, const Value& id, const F& f, const R& red, P&&) {
  return simtbb::run_preduce(r, id, f, red, simtbb::always_split<std::decay_t<P>>::value);
}
template <class Range, class Value, class F, class R>
Value parallel_deterministic_reduce(const Range& r, const Value& id, const F& f, const R& red) {
  return simtbb::run_preduce(r, id, f, red, true);
}
template <class Range, class Body>
void parallel_reduce(const Range& r, Body& b) {
  simtbb::Ctx c;
  c.parent = simtbb::current_ctx();
  if (r.empty()) return;
  simtbb::guarded(&c, [&] { simtbb::breduce(&c, r, b, 0, false); });
  simtbb::wait(&c);
  simtbb::rethrow(c);
}
template <class Range, class Body, class P,
          class = decltype(simtbb::always_split<std::decay_t<P>>::value)>
void parallel_reduce(const Range& r, Body& b, P&&) {
  parallel_reduce(r, b);
}
}  // namespace tbb
