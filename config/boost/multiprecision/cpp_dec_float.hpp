// Decimal multiprecision numbers are read as exact reals, like double: only rounding differs.
#ifndef VX_DEC_FLOAT
#define VX_DEC_FLOAT
#include <cmath>
namespace boost { namespace multiprecision {
struct cpp_dec_float_100 { double v; cpp_dec_float_100(double x=0.):v(x){} template<class T> T convert_to() const { return T(v); } };
inline cpp_dec_float_100 operator*(const cpp_dec_float_100&a,const cpp_dec_float_100&b){return a.v*b.v;}
inline cpp_dec_float_100 operator+(const cpp_dec_float_100&a,const cpp_dec_float_100&b){return a.v+b.v;}
inline cpp_dec_float_100 operator-(const cpp_dec_float_100&a,const cpp_dec_float_100&b){return a.v-b.v;}
inline cpp_dec_float_100 operator-(const cpp_dec_float_100&a){return -a.v;}
inline cpp_dec_float_100 operator/(const cpp_dec_float_100&a,const cpp_dec_float_100&b){return a.v/b.v;}
inline cpp_dec_float_100 acos(const cpp_dec_float_100&a){return std::acos(a.v);}
inline cpp_dec_float_100 asin(const cpp_dec_float_100&a){return std::asin(a.v);}
inline cpp_dec_float_100 atan(const cpp_dec_float_100&a){return std::atan(a.v);}
inline cpp_dec_float_100 cos(const cpp_dec_float_100&a){return std::cos(a.v);}
inline cpp_dec_float_100 sin(const cpp_dec_float_100&a){return std::sin(a.v);}
inline cpp_dec_float_100 tan(const cpp_dec_float_100&a){return std::tan(a.v);}
inline cpp_dec_float_100 sqrt(const cpp_dec_float_100&a){return std::sqrt(a.v);}
inline cpp_dec_float_100 atan2(const cpp_dec_float_100&a,const cpp_dec_float_100&b){return std::atan2(a.v,b.v);}
} }
#endif
