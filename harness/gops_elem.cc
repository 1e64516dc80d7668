#include "gops.hpp"
using namespace ceras;
bool build_elem( std::string const& op, args& a, pars const& p, B& out )
{
    if ( op == "square" ) out = B{ square( a[0] ) };
    else if ( op == "abs" ) out = B{ abs( a[0] ) };
    else if ( op == "fabs" ) out = B{ fabs( a[0] ) };
    else if ( op == "sign" ) out = B{ sign( a[0] ) };
    else if ( op == "relu" ) out = B{ relu( a[0] ) };
    else if ( op == "leaky" ) out = B{ KEPT( leaky_relu( VT( 1 ) / VT( p[0] ) ) )( a[0] ) * VT( p[0] ) };
    else if ( op == "clip" ) out = B{ KEPT( clip( VT( p[0] ), VT( p[1] ) ) )( a[0] ) };
    else if ( op == "oneslike" ) out = B{ ones_like( a[0] ) };
    else if ( op == "zeroslike" ) out = B{ zeros_like( a[0] ) };
    else if ( op == "identity" ) out = B{ identity( a[0] ) };
    else if ( op == "maximum" ) out = B{ maximum( a[0], a[1] ) };
    else if ( op == "minimum" ) out = B{ minimum( a[0], a[1] ) };
    else if ( op == "equal" ) out = B{ equal( a[0], a[1], 0.5 ) };
    else if ( op == "sumall" ) out = B{ sum_reduce( a[0] ) };
    else if ( op == "rsumall" ) out = B{ reduce_sum( a[0] ) };
    else if ( op == "meann" ) out = B{ mean_reduce( a[0] ) * VT( p[0] ) };
    else if ( op == "rsum" ) out = B{ KEPT( reduce_sum( (unsigned long)p[0] ) )( a[0] ) };
    else if ( op == "rmax" ) out = B{ KEPT( reduce_max( (unsigned long)p[0] ) )( a[0] ) };
    else if ( op == "rmin" ) out = B{ KEPT( reduce_min( (unsigned long)p[0] ) )( a[0] ) };
    else if ( op == "argmax" ) out = B{ KEPT( argmax( (unsigned long)p[0] ) )( a[0] ) };
    else if ( op == "argmin" ) out = B{ KEPT( argmin( (unsigned long)p[0] ) )( a[0] ) };
    else return false;
    return true;
}
