// Included before everything else (-include).  Replaces tbb::parallel_for, parallel_reduce, parallel_for_each,
// parallel_invoke, parallel_sort, task_group and concurrent_vector over one dimensional ranges by versions whose schedule is chosen here; every other TBB
// facility is the real one.
//   VERIF_FIBER    one fiber per segment on one thread, switched at schedule actions, at concurrent_vector
//                  operations and (when preemption is on) at allocations.  Schedules: executions of TbbRuntime.tla.
//   VERIF_THREADS  one std::thread per segment: everything the runtime may run concurrently is concurrent, for TSan.
#ifndef VERIF_TBB_HPP
#define VERIF_TBB_HPP
#include <tbb/tbb.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include <fstream>
#ifdef VERIF_FIBER
#include <ucontext.h>
#include <pthread.h>
#include <dlfcn.h>
#endif

namespace verif_sched {

struct Act { char op; int i, m; };
struct Schedule { bool reduce; int n; std::vector<Act> a; };

struct Control {
    std::mt19937 rng{1};
    std::vector<Schedule> lib;
    std::vector<std::vector<int>> index[2];   // [reduce][n] -> positions in lib
    int lib_percent = 0;       // how often a library schedule is used
    int preempt = 0;           // one in so many allocations is a switch (0: never)
    bool logging = false;
    std::string log;           // JSON, one Region event per region
    long regions = 0, segments = 0, switches = 0;
    unsigned rnd(unsigned k) { return k ? (unsigned) (rng() % k) : 0; }

    // lines: kind n count {op i m}
    bool load(const char *path) {
        std::ifstream in(path);
        std::string kind; int n, k;
        while (in >> kind >> n >> k) {
            Schedule s; s.reduce = kind == "reduce"; s.n = n;
            for (int j = 0; j < k; j++) { std::string op; Act a; in >> op >> a.i >> a.m; a.op = op[0]; s.a.push_back(a); }
            auto &ix = index[s.reduce];
            if ((int) ix.size() <= n) ix.resize(n + 1);
            ix[n].push_back((int) lib.size());
            lib.push_back(s);
        }
        return !lib.empty();
    }
};
inline Control& control() { static Control c; return c; }

// ------------------------------------------------------------------ fibers
#ifdef VERIF_FIBER
struct Fiber {
    ucontext_t ctx, back;
    std::unique_ptr<char[]> stack;
    std::function<void()> job;
    bool finished = true, blocked = false;
    std::exception_ptr error;
};
inline Fiber*& current() { static thread_local Fiber *f = nullptr; return f; }
inline int& nopreempt() { static int n = 0; return n; }

inline std::vector<Fiber*>& pool() { static std::vector<Fiber*> p; return p; }
const std::size_t STACK = 512 * 1024;

inline void trampoline() {
    Fiber *f = current();
    try { f->job(); } catch (...) { f->error = std::current_exception(); }
    f->finished = true;
    swapcontext(&f->ctx, &f->back);
    std::abort();
}
inline void yield(bool blocked = false) {
    Fiber *f = current();
    if (!f || nopreempt()) return;
    control().switches++;
    f->blocked = blocked;
    swapcontext(&f->ctx, &f->back);
}
// run f until it yields or finishes
inline void resume(Fiber *f) {
    Fiber *me = current();
    current() = f;
    swapcontext(&f->back, &f->ctx);
    current() = me;
}
inline Fiber* take(std::function<void()> job) {
    Fiber *f;
    if (pool().empty()) { f = new Fiber; f->stack.reset(new char[STACK]); }
    else { f = pool().back(); pool().pop_back(); }
    f->job = std::move(job); f->finished = false; f->blocked = false; f->error = nullptr;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack.get(); f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)()) trampoline, 0);
    return f;
}
inline void give(Fiber *f) { f->job = nullptr; pool().push_back(f); }

struct Seg { int lo, hi, done, busy; Fiber *f; };

// One region.  run(id, lo, hi) executes a chunk of the segment with that id; ids are stable.
struct Hooks {
    std::function<void(int id, int lo, int hi)> run;
    std::function<void(int id)> fresh;            // a new partial value
    std::function<void(int left, int right)> join;  // right is gone afterwards
    std::function<void(int left, int right)> absorb;
    std::function<bool(int lo, int hi)> divisible;
};

class Region {
public:
    Region(bool reduce, int n, Hooks h) : reduce(reduce), n(n), h(std::move(h)) {}
    void execute() {
        Control &c = control();
        c.regions++;
        if (c.logging) c.log += std::string(c.log.empty() ? "" : ",") + "{\"op\":\"Region\",\"kind\":\"" + (reduce ? "reduce" : "for") + "\",\"n\":" + std::to_string(n) + ",\"a\":[";
        if (n > 0) {
            segs.push_back(Seg{0, n, 0, 0, nullptr}); ids.push_back(next++);
            h.fresh(ids[0]);
            // a nested region runs as one of the schedules of its own; its fibers are not interleaved with the outer ones
            bool done = false;
            if ((int) c.rnd(100) < c.lib_percent) done = from_library();
            if (!done) random();
        }
        if (c.logging) c.log += "]}";
        if (error) std::rethrow_exception(error);
    }
    int last() const { return ids.empty() ? -1 : ids[0]; }
private:
    bool reduce; int n; Hooks h;
    std::vector<Seg> segs; std::vector<int> ids; int next = 0; bool firstlog = true;
    std::exception_ptr error;

    void note(const char *op, int i, int m) {
        Control &c = control();
        if (!c.logging) return;
        c.log += std::string(firstlog ? "" : ",") + "[\"" + op + "\"," + std::to_string(i + 1) + "," + std::to_string(m) + "]";
        firstlog = false;
    }
    bool complete(int i) const { return !segs[i].busy && segs[i].done == segs[i].hi; }
    int frontier(int i) const { return segs[i].busy ? segs[i].busy : segs[i].done; }

    void split(int i, int m) {
        control().segments++;
        note("split", i, m);
        Seg s{m, segs[i].hi, m, 0, nullptr};
        segs[i].hi = m;
        segs.insert(segs.begin() + i + 1, s);
        ids.insert(ids.begin() + i + 1, next);
        h.fresh(next++);
    }
    void begin(int i, int m) {
        note("begin", i, m);
        int id = ids[i], lo = segs[i].done;
        segs[i].busy = m;
        if (error) return;      // cancelled: the chunk is skipped
        segs[i].f = take([this, id, lo, m] { h.run(id, lo, m); });
        resume(segs[i].f);
    }
    void end(int i) {
        Fiber *f = segs[i].f;
        long spins = 0;
        while (f && !f->finished) {
            resume(f);
            if (f->blocked) {   // waits for a lock of another segment: let the others move
                f->blocked = false;
                for (auto &s : segs) if (s.f && s.f != f && !s.f->finished) resume(s.f);
                if (++spins > 1000000) { std::fprintf(stderr, "VERIF-DEADLOCK\n"); std::abort(); }
            }
        }
        if (f) { if (f->error && !error) error = f->error; f->error = nullptr; give(f); }
        segs[i].f = nullptr;
        note("end", i, 0);
        segs[i].done = segs[i].busy; segs[i].busy = 0;
    }
    void merge(int i, bool absorb) {
        note(absorb ? "absorb" : "join", i, 0);
        if (absorb) h.absorb(ids[i], ids[i + 1]); else h.join(ids[i], ids[i + 1]);
        segs[i].done = absorb ? segs[i].hi : segs[i + 1].hi;
        segs[i].hi = segs[i + 1].hi;
        segs.erase(segs.begin() + i + 1); ids.erase(ids.begin() + i + 1);
    }
    bool finished() const {
        for (int i = 0; i < (int) segs.size(); i++) if (!complete(i)) return false;
        return !reduce || segs.size() == 1;
    }

    // an execution of the specification for a smaller or equal size, stretched
    bool from_library() {
        Control &c = control();
        if (!h.divisible(0, 2) && n > 1) return false;
        auto &ix = c.index[reduce];
        std::vector<int> sizes;
        for (int k = 1; k < (int) ix.size() && k <= n; k++) if (!ix[k].empty()) sizes.push_back(k);
        if (sizes.empty()) return false;
        int k = c.rnd(3) ? sizes.back() : sizes[c.rnd(sizes.size())];
        const Schedule &s = c.lib[ix[k][c.rnd(ix[k].size())]];
        std::vector<int> pos(k + 1);
        pos[0] = 0; pos[k] = n;
        std::vector<int> inner;
        for (int j = 1; j < n; j++) inner.push_back(j);
        std::shuffle(inner.begin(), inner.end(), c.rng);
        inner.resize(k - 1); std::sort(inner.begin(), inner.end());
        for (int j = 1; j < k; j++) pos[j] = inner[j - 1];
        for (auto &a : s.a) {
            int i = a.i - 1;
            switch (a.op) {
            case 's': split(i, pos[a.m]); break;
            case 'b': begin(i, pos[a.m]); break;
            case 'e': end(i); break;
            case 'j': merge(i, false); break;
            case 'a': merge(i, true); break;
            }
        }
        return true;
    }

    void random() {
        Control &c = control();
        int style = c.rnd(4);   // 0: few segments, 1: as fine as possible first, else mixed
        int maxseg = style == 0 ? 2 + c.rnd(3) : 64;
        if (style == 1) {
            for (int i = 0; i < (int) segs.size() && (int) segs.size() < 200;) {
                if (h.divisible(segs[i].lo, segs[i].hi)) split(i, segs[i].lo + 1 + c.rnd(segs[i].hi - segs[i].lo - 1)); else i++;
            }
        }
        while (!finished()) {
            int i = c.rnd(segs.size());
            Seg &s = segs[i];
            switch (c.rnd(6)) {
            case 0: {
                int lo = std::max(frontier(i), s.lo + 1);
                // what is left of the segment must be divisible for the runtime to split it
                if ((int) segs.size() < maxseg && lo < s.hi && h.divisible(frontier(i), s.hi)) split(i, lo + c.rnd(s.hi - lo));
                break; }
            case 1: case 2: if (!s.busy && s.done < s.hi) begin(i, chunk(s)); break;
            case 3: if (s.busy && s.f && !s.f->finished) resume(s.f); break;
            case 4: if (s.busy) end(i); break;
            case 5:
                if (reduce && i + 1 < (int) segs.size() && complete(i)) {
                    if (complete(i + 1)) merge(i, false);
                    else if (segs[i + 1].done == segs[i + 1].lo && !segs[i + 1].busy && c.rnd(2)) merge(i, true);
                }
                break;
            }
        }
    }
    // the end of the next chunk: the runtime cuts chunks by splitting divisible ranges
    int chunk(const Seg &s) {
        Control &c = control();
        if (!h.divisible(s.done, s.hi) || c.rnd(2)) return s.hi;
        return s.done + 1 + c.rnd(s.hi - s.done - 1);
    }
};
#endif

template<class R> struct one_dim : std::false_type {};
template<class V> struct one_dim<tbb::blocked_range<V>> : std::true_type { };
// the range_type of concurrent_vector and whatever else derives from a blocked_range and is built like one
template<class V> V blocked_value(const tbb::blocked_range<V>*);
template<class R, class = void> struct blocked_of : std::false_type {};
template<class R> struct blocked_of<R, decltype((void) blocked_value((const R*) nullptr))> : std::true_type {};

template<class R> R sub(const R &r, int lo, int hi) { return R(r.begin() + lo, r.begin() + hi, r.grainsize()); }
template<class R> bool divisible(const R &r, int lo, int hi) { return (std::size_t) (hi - lo) > (std::size_t) r.grainsize() && hi - lo > 1; }

#ifdef VERIF_FIBER
template<class R, class B> void run_for(const R &range, const B &body) {
    int n = range.empty() ? 0 : (int) range.size();
    std::vector<std::unique_ptr<B>> bodies;   // every task has its own copy of the body
    Hooks h;
    h.fresh = [&](int id) { bodies.resize(id + 1); bodies[id].reset(new B(body)); };
    h.run = [&](int id, int lo, int hi) { R r = sub(range, lo, hi); const B &b = *bodies[id]; b(r); };
    h.divisible = [&](int lo, int hi) { return divisible(range, lo, hi); };
    Region(false, n, h).execute();
}
template<class R, class V, class F, class J> V run_reduce(const R &range, const V &identity, const F &func, const J &join) {
    int n = range.empty() ? 0 : (int) range.size();
    if (n == 0) return identity;
    std::vector<std::unique_ptr<V>> val;
    Hooks h;
    h.fresh = [&](int id) { val.resize(id + 1); val[id].reset(new V(identity)); };
    h.run = [&](int id, int lo, int hi) { R r = sub(range, lo, hi); V v = func(r, static_cast<const V&>(*val[id])); *val[id] = v; };
    h.join = [&](int l, int r) { V v = join(static_cast<const V&>(*val[l]), static_cast<const V&>(*val[r])); *val[l] = v; val[r].reset(); };
    h.absorb = [&](int, int r) { val[r].reset(); };
    h.divisible = [&](int lo, int hi) { return divisible(range, lo, hi); };
    Region reg(true, n, h);
    reg.execute();
    return *val[reg.last()];
}
template<class R, class B> void run_reduce_body(const R &range, B &body) {
    int n = range.empty() ? 0 : (int) range.size();
    if (n == 0) return;
    std::vector<std::unique_ptr<B>> own;
    std::vector<B*> b;
    Hooks h;
    h.fresh = [&](int id) { own.resize(id + 1); b.resize(id + 1); if (id) { own[id].reset(new B(body, tbb::split())); b[id] = own[id].get(); } else b[0] = &body; };
    h.run = [&](int id, int lo, int hi) { R r = sub(range, lo, hi); (*b[id])(r); };
    h.join = [&](int l, int r) { b[l]->join(*b[r]); own[r].reset(); };
    h.absorb = [&](int, int r) { own[r].reset(); };
    h.divisible = [&](int lo, int hi) { return divisible(range, lo, hi); };
    Region(true, n, h).execute();
}
#endif

#ifdef VERIF_THREADS
// consecutive segments, each divisible enough, one thread each
inline std::vector<int> cuts(int n, std::function<bool(int, int)> div) {
    Control &c = control();
    std::vector<int> p{0, n};
    int want = 2 + (int) c.rnd(4);
    for (int tries = 0; tries < 20 && (int) p.size() <= want; tries++) {
        int i = c.rnd(p.size() - 1);
        if (div(p[i], p[i + 1])) p.insert(p.begin() + i + 1, p[i] + 1 + c.rnd(p[i + 1] - p[i] - 1));
    }
    c.regions++; c.segments += p.size() - 2;
    return p;
}
inline int& depth() { static thread_local int d = 0; return d; }
inline void threads(const std::vector<int> &p, std::function<void(int)> f) {
    std::vector<std::thread> ts;
    std::vector<std::exception_ptr> err(p.size());
    for (int i = 0; i + 1 < (int) p.size(); i++)
        ts.emplace_back([&f, &err, i] { depth()++; try { f(i); } catch (...) { err[i] = std::current_exception(); } });
    for (auto &t : ts) t.join();
    for (auto &e : err) if (e) std::rethrow_exception(e);
}
template<class R, class B> void run_for(const R &range, const B &body) {
    int n = range.empty() ? 0 : (int) range.size();
    if (n == 0) return;
    if (depth() > 0) { body(range); return; }
    auto p = cuts(n, [&](int a, int b) { return divisible(range, a, b); });
    threads(p, [&](int i) { const B b(body); R r = sub(range, p[i], p[i + 1]); b(r); });
}
template<class R, class V, class F, class J> V run_reduce(const R &range, const V &identity, const F &func, const J &join) {
    int n = range.empty() ? 0 : (int) range.size();
    if (n == 0) return identity;
    if (depth() > 0) return func(range, identity);
    auto p = cuts(n, [&](int a, int b) { return divisible(range, a, b); });
    std::vector<std::unique_ptr<V>> val(p.size() - 1);
    threads(p, [&](int i) { R r = sub(range, p[i], p[i + 1]); V id(identity); val[i].reset(new V(func(r, static_cast<const V&>(id)))); });
    V v = *val[0];
    for (std::size_t i = 1; i < val.size(); i++) v = join(static_cast<const V&>(v), static_cast<const V&>(*val[i]));
    return v;
}
template<class R, class B> void run_reduce_body(const R &range, B &body) {
    int n = range.empty() ? 0 : (int) range.size();
    if (n == 0) return;
    if (depth() > 0) { R r = range; body(r); return; }
    auto p = cuts(n, [&](int a, int b) { return divisible(range, a, b); });
    std::vector<std::unique_ptr<B>> own(p.size() - 1);
    for (std::size_t i = 1; i < own.size(); i++) own[i].reset(new B(body, tbb::split()));
    threads(p, [&](int i) { R r = sub(range, p[i], p[i + 1]); if (i) (*own[i])(r); else body(r); });
    for (std::size_t i = 1; i < own.size(); i++) body.join(*own[i]);
}
inline void yield(bool = false) {}
#endif

template<class... A> using if_blocked = typename std::enable_if<blocked_of<typename std::decay<A>::type...>::value>::type;
template<class I> using if_int = typename std::enable_if<std::is_integral<I>::value>::type;

} // namespace verif_sched

namespace tbb {
// ---- parallel_for over a range, with any partitioner or context behind it
template<class R, class B, class... X, class = verif_sched::if_blocked<R>>
void verif_parallel_for(const R &range, const B &body, X&&...) { verif_sched::run_for(range, body); }
template<class R, class B, class... X, class = typename std::enable_if<!verif_sched::blocked_of<R>::value && !std::is_integral<R>::value>::type, class = void>
void verif_parallel_for(const R &range, const B &body, X&&... x) { tbb::parallel_for(range, body, std::forward<X>(x)...); }
// ---- and over integers
template<class I, class J, class F, class... X, class = verif_sched::if_int<I>, class = typename std::enable_if<!std::is_integral<F>::value>::type, class = void, class = void>
void verif_parallel_for(I first, J last, const F &f, X&&...) {
    if (!(first < (I) last)) return;
    verif_sched::run_for(tbb::blocked_range<I>(first, (I) last), [&f](const tbb::blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f(i); });
}
template<class I, class J, class K, class F, class... X, class = verif_sched::if_int<I>, class = typename std::enable_if<std::is_integral<K>::value>::type, class = void, class = void, class = void>
void verif_parallel_for(I first, J last, K step, const F &f, X&&...) {
    if (!(first < (I) last)) return;
    I count = (I) (((I) last - first - (I) 1) / (I) step + (I) 1);
    verif_sched::run_for(tbb::blocked_range<I>((I) 0, count), [&](const tbb::blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f((I) (first + i * (I) step)); });
}
// ---- parallel_reduce, functional and imperative
template<class R, class V, class F, class J, class... X, class = verif_sched::if_blocked<R>, class = decltype(std::declval<const J&>()(std::declval<const V&>(), std::declval<const V&>()))>
V verif_parallel_reduce(const R &range, const V &identity, const F &func, const J &join, X&&...) { return verif_sched::run_reduce(range, identity, func, join); }
template<class R, class B, class... X, class = verif_sched::if_blocked<R>, class = decltype(std::declval<B&>().join(std::declval<B&>())), class = void>
void verif_parallel_reduce(const R &range, B &body, X&&...) { verif_sched::run_reduce_body(range, body); }
#define VERIF_SAME_REDUCE 1
// ---- parallel_for_each over iterators or a container; a body with a feeder is left to the real one
template<class It, class F, class = decltype(std::declval<const F&>()(*std::declval<It>()))>
void verif_parallel_for_each(It first, It last, const F &f) {
    std::vector<It> its;
    for (; first != last; ++first) its.push_back(first);
    verif_sched::run_for(tbb::blocked_range<std::size_t>(0, its.size()), [&](const tbb::blocked_range<std::size_t> &r) { for (std::size_t i = r.begin(); i != r.end(); ++i) f(*its[i]); });
}
template<class C, class F, class = decltype(std::begin(std::declval<C&>())), class = decltype(std::declval<const F&>()(*std::begin(std::declval<C&>()))), class = void>
void verif_parallel_for_each(C &&c, const F &f) { verif_parallel_for_each(std::begin(c), std::end(c), f); }
// ---- parallel_invoke: one index per function
template<class... F> void verif_parallel_invoke(const F&... f) {
    std::vector<std::function<void()>> fs{ std::function<void()>([&f] { f(); })... };
    verif_sched::run_for(tbb::blocked_range<std::size_t>(0, fs.size()), [&](const tbb::blocked_range<std::size_t> &r) { for (std::size_t i = r.begin(); i != r.end(); ++i) fs[i](); });
}
// ---- parallel_sort has no order among equal elements
template<class It, class... C> void verif_parallel_sort(It first, It last, const C&... c) {
    std::shuffle(first, last, verif_sched::control().rng); std::sort(first, last, c...);
}
// ---- task_group: what is pending runs together, no later than at wait()
class verif_task_group {
    std::vector<std::function<void()>> todo;
    std::mutex mine;
public:
    verif_task_group() = default;
    template<class... X, class = typename std::enable_if<sizeof...(X) != 0>::type> explicit verif_task_group(X&&...) {}
    ~verif_task_group() {}
    template<class F> void run(F &&f) {
        auto p = std::make_shared<typename std::decay<F>::type>(std::forward<F>(f));
        std::lock_guard<std::mutex> l(mine); todo.push_back([p] { (*p)(); });
    }
    template<class F> tbb::task_group_status run_and_wait(const F &f) { run([&f] { f(); }); return wait(); }
    tbb::task_group_status wait() {
        for (;;) {
            std::vector<std::function<void()>> fs;
            { std::lock_guard<std::mutex> l(mine); fs.swap(todo); }
            if (fs.empty()) return tbb::complete;
            verif_sched::run_for(tbb::blocked_range<std::size_t>(0, fs.size()), [&](const tbb::blocked_range<std::size_t> &r) { for (std::size_t i = r.begin(); i != r.end(); ++i) fs[i](); });
        }
    }
    void cancel() { todo.clear(); }
};
// ---- concurrent_vector: growing and looking at the size are points where another segment may come in
template<class T, class A = tbb::cache_aligned_allocator<T>>
class verif_concurrent_vector : public tbb::concurrent_vector<T, A> {
    typedef tbb::concurrent_vector<T, A> base;
public:
    using base::base;
    verif_concurrent_vector() = default;
    verif_concurrent_vector(const verif_concurrent_vector&) = default;
    verif_concurrent_vector(verif_concurrent_vector&&) = default;
    verif_concurrent_vector& operator=(const verif_concurrent_vector&) = default;
    verif_concurrent_vector& operator=(verif_concurrent_vector&&) = default;
    template<class U> typename base::iterator push_back(U &&x) { verif_sched::yield(); auto r = base::push_back(std::forward<U>(x)); verif_sched::yield(); return r; }
    typename base::iterator push_back(T &&x) { verif_sched::yield(); auto r = base::push_back(std::move(x)); verif_sched::yield(); return r; }
    typename base::iterator push_back(const T &x) { verif_sched::yield(); auto r = base::push_back(x); verif_sched::yield(); return r; }
    template<class... U> typename base::iterator emplace_back(U&&... x) { verif_sched::yield(); auto r = base::emplace_back(std::forward<U>(x)...); verif_sched::yield(); return r; }
    template<class... U> typename base::iterator grow_by(U&&... x) { verif_sched::yield(); auto r = base::grow_by(std::forward<U>(x)...); verif_sched::yield(); return r; }
    template<class... U> typename base::iterator grow_to_at_least(U&&... x) { verif_sched::yield(); auto r = base::grow_to_at_least(std::forward<U>(x)...); verif_sched::yield(); return r; }
    typename base::size_type size() const { verif_sched::yield(); auto r = base::size(); verif_sched::yield(); return r; }
};
} // namespace tbb

#ifdef VERIF_FIBER
// ---- preemption at allocations; locks give way
inline void* verif_alloc(std::size_t n) {
    auto &c = verif_sched::control();
    if (verif_sched::current() && c.preempt && c.rnd((unsigned) c.preempt) == 0) verif_sched::yield();
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n) { return verif_alloc(n); }
void* operator new[](std::size_t n) { return verif_alloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    typedef int (*fn)(pthread_mutex_t*);
    static fn real = (fn) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!verif_sched::current()) return real(m);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) verif_sched::yield(true);
    return r;
}
// what a spin lock does while it waits
extern "C" int sched_yield() noexcept { if (verif_sched::current()) verif_sched::yield(true); return 0; }
// initialisation of function-local statics must not be interrupted
extern "C" int __cxa_guard_acquire(long long *g) {
    typedef int (*fn)(long long*);
    static fn real; if (!real) real = (fn) dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real(g);
    if (r) verif_sched::nopreempt()++;
    return r;
}
extern "C" void __cxa_guard_release(long long *g) {
    typedef void (*fn)(long long*);
    static fn real; if (!real) real = (fn) dlsym(RTLD_NEXT, "__cxa_guard_release");
    verif_sched::nopreempt()--;
    real(g);
}
#endif

#define parallel_for verif_parallel_for
#define parallel_for_each verif_parallel_for_each
#define parallel_invoke verif_parallel_invoke
#define parallel_sort verif_parallel_sort
#define task_group verif_task_group
#define parallel_reduce verif_parallel_reduce
#define parallel_deterministic_reduce verif_parallel_reduce
#define concurrent_vector verif_concurrent_vector
#endif
