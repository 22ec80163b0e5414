// special functions are left undefined: the executor supplies them
#include <cmath>
namespace std { namespace __detail {
template<> double __cyl_bessel_j<double>(double, double);
}} // namespace std::__detail
