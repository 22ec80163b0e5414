#pragma once
#include "nanobind.h"
namespace nanobind {
struct numpy {}; struct c_contig {}; struct f_contig {}; struct any_contig {}; struct ro {};
namespace device { struct cpu {}; }
template<long... N> struct shape {};
template<long N> struct ndim {};
namespace detail {
template<typename T> constexpr int dcode()
{
    using U = std::remove_cv_t<T>;
    if constexpr (std::is_same_v<U, float>) return 1;
    else if constexpr (std::is_same_v<U, double>) return 2;
    else if constexpr (std::is_same_v<U, std::complex<float>>) return 3;
    else if constexpr (std::is_same_v<U, std::complex<double>>) return 4;
    else if constexpr (std::is_same_v<U, bool>) return 5;
    else if constexpr (std::is_integral_v<U>) return (std::is_signed_v<U> ? 10 : 20) + (sizeof(U) == 1 ? 0 : sizeof(U) == 2 ? 1 : sizeof(U) == 4 ? 2 : 3);
    else return 0;
}
template<typename A> struct req { static constexpr int n = -1; static const long* s() { return nullptr; } static constexpr bool is = false; };
template<long... N> struct req<shape<N...>> { static constexpr int n = sizeof...(N); static const long* s() { static const long v[] = {N..., 0}; return v; } static constexpr bool is = true; };
template<long N> struct req<ndim<N>> { static constexpr int n = N; static const long* s() { return nullptr; } static constexpr bool is = true; };
template<typename... A> struct findreq { using type = req<void>; };
template<typename A0, typename... A> struct findreq<A0, A...> { using type = std::conditional_t<req<A0>::is, req<A0>, typename findreq<A...>::type>; };
template<typename... A> struct scal { using type = void; };
template<typename A0, typename... A> struct scal<A0, A...> { using type = std::conditional_t<dcode<A0>() != 0, A0, typename scal<A...>::type>; };
}
template<typename... Args> class ndarray
{
public:
    using Scalar = typename detail::scal<Args...>::type;
    using R = typename detail::findreq<Args...>::type;
    void* data_ = nullptr; unsigned long ndim_ = 0; unsigned long shape_[8] = {0}; __nbh h_ = 0; bool own_ = false;
    ndarray() = default;
    ndarray(const void* p, unsigned long nd, const unsigned long* sh, object owner = object(), const long* = nullptr)
        : data_(const_cast<void*>(p)), ndim_(nd), h_(owner.h), own_(true) { for (unsigned long i = 0; i < nd; ++i) shape_[i] = sh[i]; }
    ndarray(const void* p, std::initializer_list<unsigned long> sh, object owner = object())
        : data_(const_cast<void*>(p)), ndim_(sh.size()), h_(owner.h), own_(true) { unsigned long i = 0; for (auto x : sh) shape_[i++] = x; }
    bool is_valid() const { return data_ != nullptr; }
    Scalar* data() const { return static_cast<Scalar*>(data_); }
    unsigned long shape(unsigned long i) const { return shape_[i]; }
    unsigned long ndim() const { return ndim_; }
    unsigned long size() const { unsigned long n = 1; for (unsigned long i = 0; i < ndim_; ++i) n *= shape_[i]; return n; }
    template<typename... I> Scalar& operator()(I... ix) const
    {
        unsigned long v[] = {static_cast<unsigned long>(ix)...}; unsigned long o = 0;
        for (unsigned long i = 0; i < sizeof...(I); ++i) o = o * shape_[i] + v[i];
        return data()[o];
    }
};
namespace detail {
template<typename... A> struct caster<ndarray<A...>>
{
    using N = ndarray<A...>;
    using S = N;
    static S load(__nbh h)
    {
        N r;
        if (h == 1) return r;
        using Sc = typename N::Scalar;
        __nb_nd(h, dcode<Sc>(), std::is_const_v<Sc>, N::R::n, N::R::s(), &r.data_, &r.ndim_, r.shape_);
        r.h_ = h;
        return r;
    }
    static S& get(S& s) { return s; }
    static __nbh to(const N& v)
    {
        if (!v.own_) return v.h_;
        return __nb_nd_new(v.data_, dcode<typename N::Scalar>(), v.ndim_, v.shape_, v.h_);
    }
};
}
}
