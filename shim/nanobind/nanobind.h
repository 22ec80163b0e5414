// A small model of the nanobind API: enough to run freud's own export-*.cc/module-*.cc glue.
// Each bound function becomes an untyped thunk  h thunk(void* capture, h* args);  argument
// conversions ask the environment through the __nb_* primitives below.
#pragma once
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
typedef unsigned long __nbh;
extern "C" {
double __nb_as_f64(__nbh);
float __nb_as_f32(__nbh);
long __nb_as_i64(__nbh, int bits, int sign);
int __nb_as_bool(__nbh);
__nbh __nb_from_f64(double);
__nbh __nb_from_f32(float);
__nbh __nb_from_i64(long, int bits, int sign);
__nbh __nb_from_bool(int);
void* __nb_inst(__nbh, const char* tid);
__nbh __nb_wrap_inst(void* p, const char* tid);
__nbh __nb_list_new();
void __nb_list_append(__nbh, __nbh);
unsigned long __nb_len(__nbh);
__nbh __nb_getitem(__nbh, unsigned long);
__nbh __nb_tuple(__nbh);
__nbh __nb_from_str(const char*, unsigned long);
const char* __nb_as_str(__nbh);
void __nb_nd(__nbh, int code, int ro, int ndim_req, const long* shape_req, void** data, unsigned long* ndim, unsigned long* shape);
__nbh __nb_nd_new(const void* data, int code, unsigned long ndim, const unsigned long* shape, __nbh owner);
void __nb_class(const char* name, const char* tid, const char* base, unsigned long size);
void __nb_def(const char* tid, const char* name, void* cap, __nbh (*thunk)(void*, __nbh*), int nargs, int kind);
void __nb_arg(const char* name, int none, int hasdef, __nbh def);
void __nb_enum(const char* name, const char* tid);
void __nb_enum_value(const char* tid, const char* name, long v);
void __nb_enum_export(const char* tid);
__nbh __nb_from_enum(long, const char* tid);
void __nb_setattr(const char* name, __nbh v);
}
#define NB_MODULE(name, var) \
    static void __nbmod_##name(nanobind::module_&); \
    extern "C" void __nb_init_##name() { nanobind::module_ m; __nbmod_##name(m); } \
    static void __nbmod_##name([[maybe_unused]] nanobind::module_& var)
namespace nanobind {
struct dummy_policy {};
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
enum class rv { x };
struct sig { explicit sig(const char*) {} };
struct is_method {};
template<typename...> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template<typename T> const char* tid() { return __PRETTY_FUNCTION__; }

class object
{
public:
    __nbh h = 0;
    object() = default;
    explicit object(__nbh x) : h(x) {}
    bool is_valid() const { return h != 0; }
    bool is_none() const { return h == 1; }
    template<typename T> void append(const T& v);
};
using handle = object;
inline object none() { return object(1); }
struct list : object { list() : object(__nb_list_new()) {} };
struct tuple : object { using object::object; };
struct str : object { using object::object; };
class module_;
struct attr_proxy { const char* n; void operator=(const object& o) { __nb_setattr(n, o.h); } };
class module_
{
public:
    module_() = default;
    template<typename F, typename... E> module_& def(const char* n, F&& f, const E&... e);
    attr_proxy attr(const char* n) { return attr_proxy {n}; }
};
struct arg
{
    const char* name; int isnone = 0; int hasdef = 0; __nbh dv = 0;
    explicit constexpr arg(const char* n) : name(n) {}
    arg& none(bool b = true) { isnone = b; return *this; }
    arg& noconvert(bool = true) { return *this; }
    template<typename T> arg& operator=(const T& v);
    arg& operator=(std::nullptr_t) { hasdef = 1; dv = 1; isnone = 1; return *this; }
};
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }

namespace detail {
template<typename T> struct is_sp : std::false_type {};
template<typename T> struct is_sp<std::shared_ptr<T>> : std::true_type {};
template<typename T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// caster<T>: store type S, static S load(h), static T& (or value) get(S&)
template<typename T, typename = void> struct caster // registered class
{
    using S = T*;
    __attribute__((always_inline)) static S load(__nbh h) { return static_cast<T*>(__nb_inst(h, tid<T>())); }
    __attribute__((always_inline)) static T& get(S& s) { return *s; }
    template<typename U> __attribute__((always_inline)) static __nbh to(U&& v) { return __nb_wrap_inst(new T(std::forward<U>(v)), tid<T>()); }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_arithmetic_v<T>>>
{
    using S = T;
    static S load(__nbh h)
    {
        if constexpr (std::is_same_v<T, bool>) return __nb_as_bool(h) != 0;
        else if constexpr (std::is_same_v<T, float>) return __nb_as_f32(h);
        else if constexpr (std::is_floating_point_v<T>) return __nb_as_f64(h);
        else return T(__nb_as_i64(h, int(sizeof(T) * 8), std::is_signed_v<T>));
    }
    static T& get(S& s) { return s; }
    static __nbh to(T v)
    {
        if constexpr (std::is_same_v<T, bool>) return __nb_from_bool(v ? 1 : 0);
        else if constexpr (std::is_same_v<T, float>) return __nb_from_f32(v);
        else if constexpr (std::is_floating_point_v<T>) return __nb_from_f64(v);
        else return __nb_from_i64(long(v), int(sizeof(T) * 8), std::is_signed_v<T>);
    }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>>
{
    using S = T;
    static S load(__nbh h) { return T(__nb_as_i64(h, 64, 1)); }
    static T& get(S& s) { return s; }
    static __nbh to(T v) { return __nb_from_enum(long(v), tid<T>()); }
};
template<typename T> struct caster<std::complex<T>>
{
    using S = std::complex<T>;
    static S load(__nbh h) { return S(caster<T>::load(__nb_getitem(h, 0)), caster<T>::load(__nb_getitem(h, 1))); }
    static S& get(S& s) { return s; }
    static __nbh to(S v) { __nbh l = __nb_list_new(); __nb_list_append(l, caster<T>::to(v.real())); __nb_list_append(l, caster<T>::to(v.imag())); return l; }
};
template<> struct caster<std::string>
{
    using S = std::string;
    static S load(__nbh h) { return std::string(__nb_as_str(h)); }
    static S& get(S& s) { return s; }
    static __nbh to(const std::string& v) { return __nb_from_str(v.data(), v.size()); }
};
template<typename T, std::size_t N> struct caster<std::array<T, N>>
{
    using S = std::array<T, N>;
    static S load(__nbh h) { S r; for (unsigned long i = 0; i < N; ++i) r[i] = caster<T>::load(__nb_getitem(h, i)); return r; }
    static S& get(S& s) { return s; }
    static __nbh to(const S& v) { __nbh l = __nb_list_new(); for (auto&& x : v) __nb_list_append(l, caster<T>::to(x)); return l; }
};
template<typename A, typename B> struct caster<std::pair<A, B>>
{
    using S = std::pair<A, B>;
    static S load(__nbh h) { return S(caster<A>::load(__nb_getitem(h, 0)), caster<B>::load(__nb_getitem(h, 1))); }
    static S& get(S& s) { return s; }
    static __nbh to(const S& v) { __nbh l = __nb_list_new(); __nb_list_append(l, caster<A>::to(v.first)); __nb_list_append(l, caster<B>::to(v.second)); return __nb_tuple(l); }
};
template<typename... A> struct caster<std::tuple<A...>>
{
    using S = std::tuple<A...>;
    static S& get(S& s) { return s; }
    static __nbh to(const S& v) { __nbh l = __nb_list_new(); std::apply([&](auto&&... x) { (__nb_list_append(l, caster<bare<decltype(x)>>::to(x)), ...); }, v); return __nb_tuple(l); }
};
template<typename T> struct noop_del { void operator()(T*) const {} };
template<typename T> struct caster<std::shared_ptr<T>>
{
    using S = std::shared_ptr<T>;
    using U = std::remove_cv_t<T>;
    static S load(__nbh h)
    {
        if (h == 1) return S();
        return S(static_cast<U*>(__nb_inst(h, tid<U>())), noop_del<U>());
    }
    static S& get(S& s) { return s; }
    static __nbh to(const S& v)
    {
        if (!v) return 1;
        new S(v); // keep alive
        return __nb_wrap_inst(const_cast<U*>(v.get()), tid<U>());
    }
};
template<typename T> struct caster<T*>
{
    using U = std::remove_cv_t<T>;
    using S = T*;
    static S load(__nbh h) { return h == 1 ? nullptr : static_cast<U*>(__nb_inst(h, tid<U>())); }
    static S& get(S& s) { return s; }
    static __nbh to(T* v) { return v ? __nb_wrap_inst(const_cast<U*>(v), tid<U>()) : 1; }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>>
{
    using S = T;
    static S load(__nbh h) { S s; s.h = h; return s; }
    static S& get(S& s) { return s; }
    static __nbh to(const T& v) { return v.h; }
};
// reference returns of registered classes: by pointer
template<typename R> __nbh ret(R&& r)
{
    using B = bare<R>;
    return caster<B>::to(std::forward<R>(r));
}
template<typename R, typename... A, typename F, std::size_t... I> __nbh invoke(F& f, __nbh* a, std::index_sequence<I...>)
{
    std::tuple<typename caster<bare<A>>::S...> s {caster<bare<A>>::load(a[I])...};
    (void) s; (void) a;
    if constexpr (std::is_void_v<R>) { f(static_cast<A>(caster<bare<A>>::get(std::get<I>(s)))...); return 1; }
    else return ret<R>(f(static_cast<A>(caster<bare<A>>::get(std::get<I>(s)))...));
}
template<typename R, typename... A, typename F> __nbh (*thunk_for(F*))(void*, __nbh*)
{
    return [](void* cap, __nbh* a) -> __nbh { return invoke<R, A...>(*static_cast<F*>(cap), a, std::index_sequence_for<A...>()); };
}
inline void extra(int) {}
template<typename E> void extra1(const E& e)
{
    if constexpr (std::is_same_v<E, arg>) __nb_arg(e.name, e.isnone, e.hasdef, e.dv);
}
template<typename F, typename R, typename... A, typename... E>
void reg(const char* t, const char* n, F f, R (*)(A...), int kind, const E&... e)
{
    __nb_def(t, n, new F(std::move(f)), thunk_for<R, A...>((F*) nullptr), int(sizeof...(A)), kind);
    (extra1(e), ...);
}
template<typename T> struct sigof;
template<typename C, typename R, typename... A> struct sigof<R (C::*)(A...) const> { using type = R (*)(A...); };
template<typename C, typename R, typename... A> struct sigof<R (C::*)(A...)> { using type = R (*)(A...); };
template<typename F, typename... E> void regany(const char* t, const char* n, F&& f, int kind, const E&... e)
{
    using D = std::decay_t<F>;
    if constexpr (std::is_pointer_v<D>) reg(t, n, D(f), D(nullptr), kind, e...);
    else reg(t, n, D(f), (typename sigof<decltype(&D::operator())>::type)(nullptr), kind, e...);
}
template<typename T, typename C, typename R, typename... A, typename... E>
void regmem(const char* t, const char* n, R (C::*f)(A...), int kind, const E&... e)
{
    auto g = [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    reg(t, n, g, (R (*)(T&, A...)) nullptr, kind, e...);
}
template<typename T, typename C, typename R, typename... A, typename... E>
void regmem(const char* t, const char* n, R (C::*f)(A...) const, int kind, const E&... e)
{
    auto g = [f](const T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    reg(t, n, g, (R (*)(const T&, A...)) nullptr, kind, e...);
}
} // namespace detail
template<typename T> arg& arg::operator=(const T& v) { hasdef = 1; dv = detail::caster<detail::bare<T>>::to(v); return *this; }
template<typename T> void object::append(const T& v) { __nb_list_append(h, detail::caster<detail::bare<T>>::to(v)); }
template<typename T> T cast(const object& o)
{
    using C = detail::caster<detail::bare<T>>;
    static thread_local typename C::S s = C::load(o.h);
    s = C::load(o.h);
    return C::get(s);
}
template<typename T> object cast_to(const T& v) { return object(detail::caster<T>::to(v)); }
template<typename... A> tuple make_tuple(A&&... a)
{
    __nbh l = __nb_list_new();
    (__nb_list_append(l, detail::caster<detail::bare<A>>::to(a)), ...);
    return tuple(__nb_tuple(l));
}
template<typename... A> struct init {};
struct self_t {};
inline constexpr self_t self {};
struct op_eq {}; struct op_ne {};
inline op_eq operator==(self_t, self_t) { return {}; }
inline op_ne operator!=(self_t, self_t) { return {}; }
template<typename F, typename... E> module_& module_::def(const char* n, F&& f, const E&... e)
{
    detail::regany(nullptr, n, std::forward<F>(f), 0, e...);
    return *this;
}
template<typename T, typename... B> struct first_of { using type = void; };
template<typename T, typename B0, typename... B> struct first_of<T, B0, B...> { using type = B0; };
template<typename T, typename... Base> class class_
{
public:
    class_(const module_&, const char* n)
    {
        using B = typename first_of<T, Base...>::type;
        const char* b = nullptr;
        if constexpr (!std::is_void_v<B>) b = tid<B>();
        __nb_class(n, tid<T>(), b, sizeof(T));
    }
    template<typename... A, typename... E> class_& def(const init<A...>&, const E&... e)
    {
        auto g = [](T* p, A... a) { new (p) T(std::forward<A>(a)...); };
        detail::reg(tid<T>(), "__init__", g, (void (*)(T*, A...)) nullptr, 1, e...);
        return *this;
    }
    template<typename... E> class_& def(op_eq, const E&...)
    {
        detail::regany(tid<T>(), "__eq__", [](const T& a, const T& b) -> bool { return a == b; }, 0);
        return *this;
    }
    template<typename... E> class_& def(op_ne, const E&...)
    {
        detail::regany(tid<T>(), "__ne__", [](const T& a, const T& b) -> bool { return a != b; }, 0);
        return *this;
    }
    template<typename F, typename... E> class_& def(const char* n, F&& f, const E&... e)
    {
        using D = std::decay_t<F>;
        if constexpr (std::is_member_function_pointer_v<D>) detail::regmem<T>(tid<T>(), n, f, 0, e...);
        else detail::regany(tid<T>(), n, std::forward<F>(f), 0, e...);
        return *this;
    }
    template<typename F, typename... E> class_& def_static(const char* n, F&& f, const E&... e)
    {
        detail::regany(tid<T>(), n, std::forward<F>(f), 4, e...);
        return *this;
    }
    template<typename F, typename... E> class_& def_prop_ro(const char* n, F&& f, const E&... e)
    {
        using D = std::decay_t<F>;
        if constexpr (std::is_member_function_pointer_v<D>) detail::regmem<T>(tid<T>(), n, f, 2);
        else detail::regany(tid<T>(), n, std::forward<F>(f), 2);
        return *this;
    }
    template<typename G, typename S, typename... E> class_& def_prop_rw(const char* n, G&& g, S&& s, const E&... e)
    {
        def_prop_ro(n, g);
        using D = std::decay_t<S>;
        if constexpr (std::is_member_function_pointer_v<D>) detail::regmem<T>(tid<T>(), n, s, 3);
        else detail::regany(tid<T>(), n, s, 3);
        return *this;
    }
    template<typename C, typename V, typename... E> class_& def_rw(const char* n, V C::*p, const E&...)
    {
        detail::regany(tid<T>(), n, [p](const T& a) -> V { return a.*p; }, 2);
        detail::regany(tid<T>(), n, [p](T& a, const V& v) { a.*p = v; }, 3);
        return *this;
    }
    template<typename C, typename V, typename... E> class_& def_ro(const char* n, V C::*p, const E&...)
    {
        detail::regany(tid<T>(), n, [p](const T& a) -> V { return a.*p; }, 2);
        return *this;
    }
};
template<typename T> class enum_
{
public:
    enum_(const module_&, const char* n) { __nb_enum(n, tid<T>()); }
    enum_& value(const char* n, T v) { __nb_enum_value(tid<T>(), n, long(v)); return *this; }
    enum_& export_values() { __nb_enum_export(tid<T>()); return *this; }
};
} // namespace nanobind
