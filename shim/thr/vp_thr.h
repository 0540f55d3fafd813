// Threads, locks and futures whose every interleaving is chosen by the checker.
// Used for symbolic execution and for the replay of the schedules it finds.
#ifndef VP_THR_H
#define VP_THR_H
#include <chrono>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
extern "C" {
int vp_thread(void (*f)(void *), void *a);
void vp_yield(void); void vp_block_while(int *); int vp_self(void);
void vp_acq(void *); void vp_rel(void *); long vp_choose(long, long, const char *);
void *vp_current_exc(void); void vp_rethrow(void *) __attribute__((noreturn));
}
inline int vp_spurious = 0; // how many waits may end without a notification
namespace std {
struct vp_exc {
#ifdef VP_SYM
  void *p = nullptr; void grab() { p = vp_current_exc(); } explicit operator bool() const { return p; } void raise() { vp_rethrow(p); }
#else
  exception_ptr p; void grab() { p = current_exception(); } explicit operator bool() const { return (bool)p; } void raise() { rethrow_exception(p); }
#endif
};
class mutex {
  int held_ = 0;
 public:
  mutex() = default; mutex(const mutex &) = delete; mutex &operator=(const mutex &) = delete;
  void lock() { vp_yield(); while (held_) vp_block_while(&held_); held_ = 1; vp_acq(this); }
  bool try_lock() { vp_yield(); if (held_) return false; held_ = 1; vp_acq(this); return true; }
  void unlock() { vp_rel(this); held_ = 0; }
};
class recursive_mutex { mutex m; int owner = -1, n = 0; public: void lock() { if (owner == vp_self()) { n++; return; } m.lock(); owner = vp_self(); n = 1; } bool try_lock() { if (owner == vp_self()) { n++; return true; } if (!m.try_lock()) return false; owner = vp_self(); n = 1; return true; } void unlock() { if (--n == 0) { owner = -1; m.unlock(); } } };
class timed_mutex : public mutex { public: template <class D> bool try_lock_for(const D &) { return try_lock(); } template <class D> bool try_lock_until(const D &) { return try_lock(); } };
class shared_mutex {
  int writer_ = 0, readers_ = 0; // a waiting thread looks again whenever the lock is given back
  int busy_ = 0;
 public:
  shared_mutex() = default; shared_mutex(const shared_mutex &) = delete;
  void lock() { vp_yield(); while (writer_ || readers_) { busy_ = 1; vp_block_while(&busy_); } writer_ = 1; vp_acq(this); }
  bool try_lock() { vp_yield(); if (writer_ || readers_) return false; writer_ = 1; vp_acq(this); return true; }
  void unlock() { vp_rel(this); writer_ = 0; busy_ = 0; }
  void lock_shared() { vp_yield(); while (writer_) { busy_ = 1; vp_block_while(&busy_); } readers_++; vp_acq(this); }
  bool try_lock_shared() { vp_yield(); if (writer_) return false; readers_++; vp_acq(this); return true; }
  void unlock_shared() { vp_rel(this); readers_--; busy_ = 0; }
};
typedef shared_mutex shared_timed_mutex;
template <class M> class shared_lock { M *m = nullptr; bool o = false; public: shared_lock() {} explicit shared_lock(M &x) : m(&x), o(true) { x.lock_shared(); } ~shared_lock() { if (o) m->unlock_shared(); } shared_lock(const shared_lock &) = delete; void lock() { m->lock_shared(); o = true; } void unlock() { o = false; m->unlock_shared(); } bool owns_lock() const { return o; } };
template <class A, class B, class... C> void lock(A &a, B &b, C &...c) { a.lock(); b.lock(); (c.lock(), ...); }
struct defer_lock_t {}; struct try_to_lock_t {}; struct adopt_lock_t {};
constexpr defer_lock_t defer_lock{}; constexpr try_to_lock_t try_to_lock{}; constexpr adopt_lock_t adopt_lock{};
template <class M> class lock_guard { M &m; public: typedef M mutex_type; explicit lock_guard(M &x) : m(x) { m.lock(); } lock_guard(M &x, adopt_lock_t) : m(x) {} ~lock_guard() { m.unlock(); } lock_guard(const lock_guard &) = delete; };
template <class... M> class scoped_lock { tuple<M &...> t; public: explicit scoped_lock(M &...x) : t(x...) { (x.lock(), ...); } scoped_lock(adopt_lock_t, M &...x) : t(x...) {} ~scoped_lock() { std::apply([](auto &...x) { (x.unlock(), ...); }, t); } scoped_lock(const scoped_lock &) = delete; };
template <class M> class unique_lock {
  M *m = nullptr; bool o = false;
 public:
  typedef M mutex_type;
  unique_lock() noexcept {} template <class D> unique_lock(M &x, const chrono::duration<D> &) : m(&x), o(x.try_lock()) {} explicit unique_lock(M &x) : m(&x), o(true) { x.lock(); } unique_lock(M &x, defer_lock_t) : m(&x) {} unique_lock(M &x, adopt_lock_t) : m(&x), o(true) {} unique_lock(M &x, try_to_lock_t) : m(&x), o(x.try_lock()) {}
  unique_lock(unique_lock &&u) : m(u.m), o(u.o) { u.m = nullptr; u.o = false; } unique_lock &operator=(unique_lock &&u) { if (o) unlock(); m = u.m; o = u.o; u.m = nullptr; u.o = false; return *this; }
  ~unique_lock() { if (o) m->unlock(); }
  void lock() { if (!m || o) throw system_error(make_error_code(errc::resource_deadlock_would_occur)); m->lock(); o = true; } bool try_lock() { o = m->try_lock(); return o; } void unlock() { if (!o) throw system_error(make_error_code(errc::operation_not_permitted)); o = false; m->unlock(); }
  bool owns_lock() const { return o; } explicit operator bool() const { return o; } M *mutex() const { return m; } M *release() { M *x = m; m = nullptr; o = false; return x; }
};
enum class cv_status { no_timeout, timeout };
// a notification releases any one of the waiting threads; vp_spurious waits may end by themselves
class condition_variable {
  struct W { int wait = 1; W *next = nullptr; }; W *head = nullptr, *tail = nullptr;
 public:
  condition_variable() = default; condition_variable(const condition_variable &) = delete;
  void wait(unique_lock<mutex> &l) {
    if (vp_spurious > 0 && vp_choose(0, 1, "spurious")) { vp_spurious--; l.unlock(); vp_yield(); l.lock(); return; }
    W w; if (tail) tail->next = &w; else head = &w; tail = &w; l.unlock(); while (w.wait) vp_block_while(&w.wait); l.lock();
  }
  template <class P> void wait(unique_lock<mutex> &l, P p) { while (!p()) wait(l); }
  void notify_one() noexcept {
    vp_yield(); if (!head) return;
    long n = 0, k; for (W *w = head; w; w = w->next) n++; k = n > 1 ? vp_choose(0, n - 1, "notified") : 0;
    W *before = nullptr, *w = head; while (k--) { before = w; w = w->next; }
    if (before) before->next = w->next; else head = w->next; if (tail == w) tail = before; w->wait = 0;
  }
  void notify_all() noexcept { vp_yield(); while (head) { W *w = head; head = w->next; w->wait = 0; } tail = nullptr; }
  template <class D> cv_status wait_until(unique_lock<mutex> &l, const D &d) { return wait_for(l, d); }
  template <class D, class P> bool wait_until(unique_lock<mutex> &l, const D &d, P p) { return wait_for(l, d, p); }
  template <class D> cv_status wait_for(unique_lock<mutex> &l, const D &) { l.unlock(); vp_yield(); l.lock(); return cv_status::timeout; }
  template <class D, class P> bool wait_for(unique_lock<mutex> &l, const D &, P p) { if (!p()) { l.unlock(); vp_yield(); l.lock(); } return p(); }
};
typedef condition_variable condition_variable_any;
struct once_flag { int s = 0; mutex m; }; template <class F, class... A> void call_once(once_flag &o, F &&f, A &&...a) { lock_guard<mutex> g(o.m); if (!o.s) { f(a...); o.s = 1; } }
namespace this_thread { template <class R, class P> void sleep_for(const chrono::duration<R, P> &) { vp_yield(); } template <class C, class D> void sleep_until(const chrono::time_point<C, D> &) { vp_yield(); } inline void yield() { vp_yield(); } inline int get_id() { return vp_self(); } }
struct vp_task { int running = 1; vp_exc exc; function<void()> fn; int sync = 0; };
inline void vp_task_main(void *p) {
  shared_ptr<vp_task> *h = (shared_ptr<vp_task> *)p; shared_ptr<vp_task> t = *h; delete h; vp_acq(&t->sync);
  try { t->fn(); } catch (...) { t->exc.grab(); }
  vp_rel(&t->sync); t->running = 0;
}
inline shared_ptr<vp_task> vp_spawn(function<void()> f) { auto t = make_shared<vp_task>(); t->fn = std::move(f); vp_rel(&t->sync); vp_thread(vp_task_main, new shared_ptr<vp_task>(t)); vp_yield(); return t; }
class thread {
  shared_ptr<vp_task> t;
 public:
  typedef int id;
  thread() {} template <class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, thread>>> explicit thread(F &&f, A &&...a) { auto tp = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...); t = vp_spawn([tp]() { std::apply([](auto &g, auto &...x) { std::invoke(std::move(g), std::move(x)...); }, *tp); }); }
  thread(thread &&) = default; thread &operator=(thread &&o) { if (t) terminate(); t = std::move(o.t); return *this; } thread(const thread &) = delete;
  ~thread() { if (t) terminate(); }
  bool joinable() const { return (bool)t; } void join() { if (!t) throw system_error(make_error_code(errc::invalid_argument)); vp_yield(); while (t->running) vp_block_while(&t->running); vp_acq(&t->sync); if (t->exc) terminate(); t.reset(); } void detach() { t.reset(); }
  static unsigned hardware_concurrency() { return 2; }
};
enum class launch { async = 1, deferred = 2 }; inline launch operator|(launch a, launch b) { return (launch)((int)a | (int)b); }
enum class future_status { ready, timeout, deferred };
template <class T> struct vp_result { optional<T> v; }; template <> struct vp_result<void> {};
template <class T> struct vp_shared { shared_ptr<vp_task> t; vp_result<T> r; bool deferred = false; };
template <class T> class shared_future;
template <class T> class future {
  shared_ptr<vp_shared<T>> s;
 public:
  future() {} explicit future(shared_ptr<vp_shared<T>> x) : s(std::move(x)) {}
  future(future &&o) : s(std::move(o.s)) {} future &operator=(future &&o) { if (this != &o) { fin(); s = std::move(o.s); } return *this; } future(const future &) = delete;
  ~future() { fin(); }
  void fin() { if (s && s->t && !s->deferred && s->t->fn) { vp_yield(); while (s->t->running) vp_block_while(&s->t->running); vp_acq(&s->t->sync); } s.reset(); }
  bool valid() const { return (bool)s; }
  void run() const { if (s->deferred) { s->deferred = false; try { s->t->fn(); } catch (...) { s->t->exc.grab(); } s->t->running = 0; } }
  void wait() const { if (!s) throw logic_error("no state"); run(); vp_yield(); while (s->t->running) vp_block_while(&s->t->running); vp_acq(&s->t->sync); }
  template <class D> future_status wait_for(const D &) const { vp_yield(); if (s->deferred) return future_status::deferred; return s->t->running ? future_status::timeout : future_status::ready; }
  template <class D> future_status wait_until(const D &d) const { return wait_for(d); }
  class shared_future<T> share();
  T get() { wait(); auto k = std::move(s); s.reset(); if (k->t->exc) k->t->exc.raise(); if constexpr (!is_void_v<T>) return std::move(*k->r.v); }
};
template <class F, class... A> auto async(launch p, F &&f, A &&...a) -> future<invoke_result_t<decay_t<F>, decay_t<A>...>> {
  typedef invoke_result_t<decay_t<F>, decay_t<A>...> R; auto s = make_shared<vp_shared<R>>(); vp_shared<R> *sp = s.get();
  auto tp = make_shared<tuple<decay_t<F>, decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
  auto body = [tp, sp]() { auto call = [](auto &g, auto &...x) -> R { return std::invoke(std::move(g), std::move(x)...); }; if constexpr (is_void_v<R>) std::apply(call, *tp); else sp->r.v.emplace(std::apply(call, *tp)); };
  if ((int)p & 1) s->t = vp_spawn(body); else { s->t = make_shared<vp_task>(); s->t->fn = body; s->deferred = true; }
  return future<R>(s);
}
template <class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, launch>>> auto async(F &&f, A &&...a) { return std::async(launch::async | launch::deferred, std::forward<F>(f), std::forward<A>(a)...); }
template <class T> class shared_future {
  shared_ptr<future<T>> f; shared_ptr<vp_shared<T>> s;
 public:
  shared_future() {} explicit shared_future(shared_ptr<vp_shared<T>> x) : f(make_shared<future<T>>(x)), s(x) {}
  bool valid() const { return (bool)s; } void wait() const { f->wait(); } template <class D> future_status wait_for(const D &d) const { return f->wait_for(d); }
  auto get() const -> conditional_t<is_void_v<T>, void, add_lvalue_reference_t<const T>> { wait(); if (s->t->exc) s->t->exc.raise(); if constexpr (!is_void_v<T>) return *s->r.v; }
};
template <class T> shared_future<T> future<T>::share() { shared_future<T> r(s); s.reset(); return r; }
template <class T> class promise {
  shared_ptr<vp_shared<T>> s; void done() { vp_rel(&s->t->sync); s->t->running = 0; }
 public:
  promise() : s(make_shared<vp_shared<T>>()) { s->t = make_shared<vp_task>(); } promise(promise &&) = default; promise &operator=(promise &&) = default;
  future<T> get_future() { return future<T>(s); } template <class... U> void set_value(U &&...u) { if constexpr (!is_void_v<T>) s->r.v.emplace(std::forward<U>(u)...); done(); }
  void set_exception(vp_exc e) { s->t->exc = e; done(); }
};
template <class S> class packaged_task;
template <class R, class... A> class packaged_task<R(A...)> {
  shared_ptr<vp_shared<R>> s; function<R(A...)> f;
 public:
  packaged_task() {} template <class F, class = enable_if_t<!is_same_v<decay_t<F>, packaged_task>>> explicit packaged_task(F &&x) : s(make_shared<vp_shared<R>>()), f(std::forward<F>(x)) { s->t = make_shared<vp_task>(); }
  packaged_task(packaged_task &&) = default; packaged_task &operator=(packaged_task &&) = default;
  bool valid() const { return (bool)s; } future<R> get_future() { return future<R>(s); }
  void operator()(A... a) { try { if constexpr (is_void_v<R>) f(std::forward<A>(a)...); else s->r.v.emplace(f(std::forward<A>(a)...)); } catch (...) { s->t->exc.grab(); } vp_rel(&s->t->sync); s->t->running = 0; }
};
}  // namespace std
#endif
