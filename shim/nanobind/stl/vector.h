#include "../nanobind.h"
#ifndef VERIF_NB_VECTOR
#define VERIF_NB_VECTOR
// as in nanobind, vectors are lists only where this header is included (inlined: other files treat the same types as classes)
namespace nanobind { namespace detail {
template<typename T, typename A> struct caster<std::vector<T, A>>
{
    using S = std::vector<T, A>;
    __attribute__((always_inline)) static S load(__nbh h)
    {
        S r; unsigned long n = __nb_len(h);
        for (unsigned long i = 0; i < n; ++i) { auto s = caster<T>::load(__nb_getitem(h, i)); r.push_back(caster<T>::get(s)); }
        return r;
    }
    __attribute__((always_inline)) static S& get(S& s) { return s; }
    __attribute__((always_inline)) static __nbh to(const S& v) { __nbh l = __nb_list_new(); for (auto&& x : v) __nb_list_append(l, caster<T>::to(x)); return l; }
};
}} // namespace nanobind::detail
#endif
