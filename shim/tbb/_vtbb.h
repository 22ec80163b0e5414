// Sequential, schedule-parametric model of the parts of oneTBB that freud uses.
// Every decision the real runtime is free to take (how a range is cut into chunks, in
// which order the chunks run, which worker runs each chunk) is asked from the
// environment through __vt_* hooks, which the symbolic executor answers.
#pragma once
#include <algorithm>
#include <cstddef>
#include <deque>
#include <functional>
#include <iterator>
#include <new>
#include <unordered_map>
#include <utility>
#include <vector>
extern "C" {
void __vt_par_begin(unsigned kind, unsigned long b0, unsigned long e0, unsigned long b1, unsigned long e1);
int __vt_par_next(unsigned long* b0, unsigned long* e0, unsigned long* b1, unsigned long* e1);
void __vt_par_end();
unsigned __vt_thread();       // id of the worker executing the current chunk
unsigned __vt_sort_perm();    // tie handling hook
void __vt_sync(int on);       // the containers synchronise the accesses within
}
struct __vt_guard { __vt_guard() { __vt_sync(1); } ~__vt_guard() { __vt_sync(0); } };
namespace tbb {
struct split {};
template<typename T> class blocked_range
{
public:
    using const_iterator = T;
    blocked_range(T b, T e, std::size_t g = 1) : b_(b), e_(e) {}
    T begin() const { return b_; }
    T end() const { return e_; }
    std::size_t size() const { return std::size_t(e_ - b_); }
    bool empty() const { return !(b_ < e_); }
    std::size_t grainsize() const { return 1; }
private:
    T b_, e_;
};
template<typename R, typename C = R> class blocked_range2d
{
public:
    blocked_range2d(R rb, R re, C cb, C ce) : r_(rb, re), c_(cb, ce) {}
    blocked_range2d(R rb, R re, std::size_t, C cb, C ce, std::size_t) : r_(rb, re), c_(cb, ce) {}
    const blocked_range<R>& rows() const { return r_; }
    const blocked_range<C>& cols() const { return c_; }
private:
    blocked_range<R> r_;
    blocked_range<C> c_;
};
// a frame of its own for every chunk
template<typename R, typename F> __attribute__((noinline)) void __vt_call1(const F& f, unsigned long a, unsigned long b) { using T = typename R::const_iterator; f(R(T(a), T(b))); }
template<typename R, typename F> __attribute__((noinline)) void __vt_call2(const F& f, unsigned long a, unsigned long b, unsigned long c, unsigned long d) { f(R(a, b, c, d)); }
template<typename R, typename F, typename V> __attribute__((noinline)) V __vt_callr(const F& f, unsigned long a, unsigned long b, const V& v) { using T = typename R::const_iterator; return f(R(T(a), T(b)), v); }
struct auto_partitioner {};
struct simple_partitioner {};
struct static_partitioner {};
template<typename T, typename F> void parallel_for(const blocked_range<T>& r, const F& f)
{
    if (r.empty()) return;
    __vt_par_begin(1, r.begin(), r.end(), 0, 0);
    unsigned long a, b, c, d;
    while (__vt_par_next(&a, &b, &c, &d)) { __vt_call1<blocked_range<T>>(f, a, b); }
    __vt_par_end();
}
template<typename T, typename U, typename F> void parallel_for(const blocked_range2d<T, U>& r, const F& f)
{
    if (r.rows().empty() || r.cols().empty()) return;
    __vt_par_begin(2, r.rows().begin(), r.rows().end(), r.cols().begin(), r.cols().end());
    unsigned long a, b, c, d;
    while (__vt_par_next(&a, &b, &c, &d)) { __vt_call2<blocked_range2d<T, U>>(f, a, b, c, d); }
    __vt_par_end();
}
template<typename R, typename F, typename P> void parallel_for(const R& r, const F& f, const P&) { parallel_for(r, f); }
template<typename I, typename F, typename std::enable_if<std::is_integral<I>::value, int>::type = 0>
void parallel_for(I b, I e, const F& f)
{
    parallel_for(blocked_range<I>(b, e), [&](const blocked_range<I>& r) { for (I i = r.begin(); i != r.end(); ++i) f(i); });
}
template<typename T, typename V, typename F, typename R>
V parallel_reduce(const blocked_range<T>& r, const V& id, const F& f, const R& red)
{
    if (r.empty()) return id;
    V acc = id;
    __vt_par_begin(1, r.begin(), r.end(), 0, 0);
    unsigned long a, b, c, d;
    while (__vt_par_next(&a, &b, &c, &d)) { acc = red(acc, __vt_callr<blocked_range<T>>(f, a, b, id)); }
    __vt_par_end();
    return acc;
}
template<typename It, typename Cmp> void parallel_sort(It b, It e, const Cmp& c) { std::sort(b, e, c); }
template<typename It> void parallel_sort(It b, It e) { std::sort(b, e); }

template<typename T> class enumerable_thread_specific
{
    struct slot { unsigned tid; T* v; };
    std::vector<slot> s_;
    std::function<T()> f_;
    void destroy() { for (auto& s : s_) delete s.v; s_.clear(); }
public:
    template<bool C> class iter
    {
    public:
        using V = typename std::conditional<C, const T, T>::type;
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = V*;
        using reference = V&;
        iter() : p_(nullptr) {}
        explicit iter(const slot* p) : p_(p) {}
        iter(const iter<false>& o) : p_(o.p_) {}
        V& operator*() const { return *p_->v; }
        V* operator->() const { return p_->v; }
        iter& operator++() { ++p_; return *this; }
        iter operator++(int) { iter r = *this; ++p_; return r; }
        iter& operator--() { --p_; return *this; }
        iter operator+(std::ptrdiff_t n) const { return iter(p_ + n); }
        std::ptrdiff_t operator-(const iter& o) const { return p_ - o.p_; }
        bool operator==(const iter& o) const { return p_ == o.p_; }
        bool operator!=(const iter& o) const { return p_ != o.p_; }
        bool operator<(const iter& o) const { return p_ < o.p_; }
        const slot* p_;
    };
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using reference = T&;
    using const_reference = const T&;
    using value_type = T;
    using size_type = std::size_t;
    enumerable_thread_specific() : f_([]() { return T(); }) {}
    enumerable_thread_specific(const T& ex) : f_([ex]() { return T(ex); }) {}
    template<typename F, typename = decltype(std::declval<F>()())> explicit enumerable_thread_specific(F f) : f_(f) {}
    enumerable_thread_specific(const enumerable_thread_specific& o) : f_(o.f_) { for (auto& s : o.s_) s_.push_back({s.tid, new T(*s.v)}); }
    enumerable_thread_specific(enumerable_thread_specific&& o) : s_(std::move(o.s_)), f_(o.f_) { o.s_.clear(); }
    enumerable_thread_specific& operator=(const enumerable_thread_specific& o)
    {
        if (this != &o) { destroy(); f_ = o.f_; for (auto& s : o.s_) s_.push_back({s.tid, new T(*s.v)}); }
        return *this;
    }
    enumerable_thread_specific& operator=(enumerable_thread_specific&& o)
    {
        if (this != &o) { destroy(); f_ = o.f_; s_ = std::move(o.s_); o.s_.clear(); }
        return *this;
    }
    ~enumerable_thread_specific() { destroy(); }
    T& local()
    {
        __vt_guard g_;
        unsigned t = __vt_thread();
        for (auto& s : s_) if (s.tid == t) return *s.v;
        s_.push_back({t, new T(f_())});
        return *s_.back().v;
    }
    T& local(bool& exists)
    {
        __vt_guard g_;
        unsigned t = __vt_thread();
        for (auto& s : s_) if (s.tid == t) { exists = true; return *s.v; }
        exists = false;
        return local();
    }
    iterator begin() { return iterator(s_.data()); }
    iterator end() { return iterator(s_.data() + s_.size()); }
    const_iterator begin() const { return const_iterator(s_.data()); }
    const_iterator end() const { return const_iterator(s_.data() + s_.size()); }
    std::size_t size() const { return s_.size(); }
    bool empty() const { return s_.empty(); }
    void clear() { destroy(); }
    template<typename F> T combine(F f)
    {
        if (begin() == end()) return f_();
        const_iterator ci = begin();
        T my(*ci);
        while (++ci != const_iterator(end())) my = f(my, *ci);
        return my;
    }
    template<typename F> void combine_each(F f) { for (auto& x : *this) f(x); }
};
template<typename T> using combinable = enumerable_thread_specific<T>;

template<typename C> class flattened2d
{
    const C* c_;
public:
    using inner = typename C::value_type;
    using value_type = typename inner::value_type;
    class iter
    {
    public:
        using iterator_category = std::forward_iterator_tag;
        using value_type = typename inner::value_type;
        using difference_type = std::ptrdiff_t;
        using pointer = const value_type*;
        using reference = const value_type&;
        using O = typename C::const_iterator;
        O o_, oe_;
        std::size_t i_;
        iter(O o, O oe) : o_(o), oe_(oe), i_(0) { skip(); }
        void skip() { while (o_ != oe_ && i_ >= (*o_).size()) { ++o_; i_ = 0; } }
        reference operator*() const { return (*o_)[i_]; }
        pointer operator->() const { return &(*o_)[i_]; }
        iter& operator++() { ++i_; skip(); return *this; }
        iter operator++(int) { iter r = *this; ++*this; return r; }
        bool operator==(const iter& b) const { return o_ == b.o_ && i_ == b.i_; }
        bool operator!=(const iter& b) const { return !(*this == b); }
    };
    using iterator = iter;
    using const_iterator = iter;
    explicit flattened2d(const C& c) : c_(&c) {}
    iter begin() const { return iter(c_->begin(), c_->end()); }
    iter end() const { return iter(c_->end(), c_->end()); }
    std::size_t size() const { std::size_t n = 0; for (auto& v : *c_) n += v.size(); return n; }
};
template<typename C> flattened2d<C> flatten2d(const C& c) { return flattened2d<C>(c); }

template<typename K> struct tbb_hash_compare {
    static std::size_t hash(const K& k) { return std::hash<K>()(k); }
    static bool equal(const K& a, const K& b) { return a == b; }
};
template<typename K, typename V, typename H = tbb_hash_compare<K>> class concurrent_hash_map
{
public:
    using value_type = std::pair<const K, V>;
private:
    std::vector<value_type*> v_;
    value_type* get(const K& k) const { __vt_guard g_; for (auto* p : v_) if (H::equal(p->first, k)) return p; return nullptr; }
public:
    class const_accessor
    {
    public:
        value_type* p_ = nullptr;
        const value_type& operator*() const { return *p_; }
        const value_type* operator->() const { return p_; }
        bool empty() const { return !p_; }
        void release() { p_ = nullptr; }
    };
    class accessor : public const_accessor
    {
    public:
        value_type& operator*() const { return *this->p_; }
        value_type* operator->() const { return this->p_; }
    };
    concurrent_hash_map() = default;
    concurrent_hash_map(const concurrent_hash_map& o) { for (auto* p : o.v_) v_.push_back(new value_type(*p)); }
    concurrent_hash_map& operator=(const concurrent_hash_map& o) { if (this != &o) { clear(); for (auto* p : o.v_) v_.push_back(new value_type(*p)); } return *this; }
    ~concurrent_hash_map() { clear(); }
    void clear() { __vt_guard g_; for (auto* p : v_) delete p; v_.clear(); }
    std::size_t size() const { return v_.size(); }
    bool empty() const { return v_.empty(); }
    bool find(const_accessor& a, const K& k) const { a.p_ = get(k); return a.p_ != nullptr; }
    bool find(accessor& a, const K& k) { a.p_ = get(k); return a.p_ != nullptr; }
    std::size_t count(const K& k) const { return get(k) ? 1 : 0; }
    bool insert(accessor& a, const K& k)
    {
        __vt_guard g_;
        a.p_ = get(k);
        if (a.p_) return false;
        v_.push_back(new value_type(k, V()));
        a.p_ = v_.back();
        return true;
    }
    bool insert(const_accessor& a, const K& k) { accessor b; bool r = insert(b, k); a.p_ = b.p_; return r; }
    bool insert(accessor& a, const value_type& kv)
    {
        __vt_guard g_;
        a.p_ = get(kv.first);
        if (a.p_) return false;
        v_.push_back(new value_type(kv));
        a.p_ = v_.back();
        return true;
    }
    bool insert(const value_type& kv) { accessor a; return insert(a, kv); }
    template<typename... A> bool emplace(A&&... x) { return insert(value_type(std::forward<A>(x)...)); }
    bool erase(const K& k) { __vt_guard g_; for (std::size_t i = 0; i < v_.size(); ++i) if (H::equal(v_[i]->first, k)) { delete v_[i]; v_.erase(v_.begin() + i); return true; } return false; }
};
template<typename T> class concurrent_vector : public std::deque<T>
{
public:
    using std::deque<T>::deque;
    void push_back(const T& v) { __vt_guard g_; std::deque<T>::push_back(v); }
    void push_back(T&& v) { __vt_guard g_; std::deque<T>::push_back(std::move(v)); }
    template<typename... A> void emplace_back(A&&... a) { __vt_guard g_; std::deque<T>::emplace_back(std::forward<A>(a)...); }
};
class __vt_mutex
{
public:
    void lock() { __vt_sync(1); }
    bool try_lock() { __vt_sync(1); return true; }
    void unlock() { __vt_sync(0); }
    class scoped_lock
    {
        bool on_ = false;
    public:
        scoped_lock() = default;
        template<typename M> explicit scoped_lock(M& m, bool = true) { acquire(m); }
        template<typename M> void acquire(M&, bool = true) { on_ = true; __vt_sync(1); }
        void release() { if (on_) __vt_sync(0); on_ = false; }
        ~scoped_lock() { release(); }
    };
};
using mutex = __vt_mutex; using spin_mutex = __vt_mutex; using queuing_mutex = __vt_mutex; using spin_rw_mutex = __vt_mutex; using rw_mutex = __vt_mutex; using speculative_spin_mutex = __vt_mutex;

extern "C" void __vt_global_control(unsigned long n, int on);
class global_control
{
public:
    enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception };
    global_control(parameter p, std::size_t n) : n_(n) { __vt_global_control(n, 1); }
    ~global_control() { __vt_global_control(n_, 0); }
    static std::size_t active_value(parameter) { return 1; }
private:
    std::size_t n_;
};
} // namespace tbb
namespace oneapi { namespace tbb { using namespace ::tbb; } }
