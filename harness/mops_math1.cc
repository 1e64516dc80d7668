#include "mops.hpp"
using namespace ceras;
int make_math1( std::string const& k, pars const& p, args const& a, args& out )
{
    U( "abs", abs( x ) ) U( "fabs", fabs( x ) ) U( "acos", acos( x ) ) U( "acosh", acosh( x ) ) U( "asin", asin( x ) ) U( "asinh", asinh( x ) )
    U( "atan", atan( x ) ) U( "atanh", atanh( x ) ) U( "cbrt", cbrt( x ) ) U( "ceil", ceil( x ) ) U( "cos", cos( x ) ) U( "cosh", cosh( x ) )
    U( "erf", erf( x ) ) U( "erfc", erfc( x ) ) U( "exp", exp( x ) ) U( "exp2", exp2( x ) ) U( "expm1", expm1( x ) ) U( "floor", floor( x ) )
    U( "llrint", llrint( x ) ) U( "llround", llround( x ) ) U( "log", log( x ) ) U( "log10", log10( x ) ) U( "log1p", log1p( x ) ) U( "log2", log2( x ) )
    return 0;
}
