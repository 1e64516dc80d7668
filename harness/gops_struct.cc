#include "gops.hpp"
using namespace ceras;
bool build_struct( std::string const& op, args& a, pars const& p, B& out )
{
    if ( op == "reshape" ) out = B{ KEPT( reshape( tail( p, 1 ), p[0] == 1 ) )( a[0] ) };
    else if ( op == "flatten" ) out = B{ flatten( a[0] ) };
    else if ( op == "expand" ) out = B{ KEPT( expand_dims( int( p[0] ) ) )( a[0] ) };
    else if ( op == "squeeze" ) out = B{ KEPT( squeeze( int( p[0] ) ) )( a[0] ) };
    else if ( op == "flip" ) out = B{ KEPT( flip( int( p[0] ) ) )( a[0] ) };
    else if ( op == "transpose" ) out = B{ transpose( a[0] ) };
    else if ( op == "repeat" ) out = B{ KEPT( repeat( (unsigned long)p[0], (unsigned long)p[1] ) )( a[0] ) };
    else if ( op == "broadcast" ) out = B{ KEPT( broadcast( tail( p, 0 ) ) )( a[0] ) };
    else if ( op == "concat" ) out = B{ concatenate( a[0], a[1] )( (unsigned long)p[0] ) };
    else if ( op == "concatf" ) out = B{ KEPT( concatenate( (unsigned long)p[0] ) )( a[0], a[1] ) };
    else return false;
    return true;
}
