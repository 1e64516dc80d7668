#include "mops.hpp"
using namespace ceras;
int make_math2( std::string const& k, pars const& p, args const& a, args& out )
{
    U( "lrint", lrint( x ) ) U( "lround", lround( x ) ) U( "nearbyint", nearbyint( x ) ) U( "rint", rint( x ) ) U( "round", round( x ) ) U( "sign", sign( x ) )
    U( "sin", sin( x ) ) U( "sinh", sinh( x ) ) U( "sqrt", sqrt( x ) ) U( "tan", tan( x ) ) U( "tanh", tanh( x ) ) U( "trunc", trunc( x ) )
    U( "negative", negative( x ) ) U( "square", square( x ) ) U( "inverse", inverse( x ) )
    U( "clip", clip( VT( p[0] ), VT( p[1] ) )( x ) ) U( "clip_below", clip( VT( p[0] ) )( x ) )
    U( "addc", x + VT( p[0] ) ) U( "subc", x - VT( p[0] ) ) U( "csub", VT( p[0] ) - x ) U( "mulc", x * VT( p[0] ) ) U( "divc", x / VT( p[0] ) )
    U( "cdiv", VT( p[0] ) / x ) U( "pow", pow( x, VT( p[0] ) ) ) U2( "divide", divide( x, y ) ) U2( "times", elementwise_multiply( x, y ) )
    U2( "maximum", maximum( x, y ) ) U2( "minimum", minimum( x, y ) ) U2( "atan2", atan2( x, y ) ) U2( "hypot", hypot( x, y ) ) U2( "equal", equal( x, y, VT( p[0] ) ) )
    U2( "add", x + y ) U2( "sub", x - y ) U2( "mul", hadamard_product( x, y ) ) U2( "div", x / y )
    return 0;
}
