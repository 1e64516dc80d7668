#include "mops.hpp"
using namespace ceras;
int make_act( std::string const& k, pars const& p, args const& a, args& out )
{
    U( "heaviside", heaviside_step( VT( p[0] ) )( x ) ) U( "soft_sign", soft_sign( x ) ) U( "unit_step", unit_step( x ) ) U( "binary_step", binary_step( x ) )
    U( "gaussian", gaussian( x ) ) U( "selu", selu( x ) ) U( "softplus", softplus( x ) ) U( "softsign", softsign( x ) ) U( "sigmoid", sigmoid( x ) )
    U( "relu", relu( x ) ) U( "relu6", relu6( x ) ) U( "leaky_relu", leaky_relu( VT( p[0] ) )( x ) ) U( "prelu", prelu( VT( p[0] ) )( x ) )
    U( "negative_relu", negative_relu( x ) ) U( "elu", elu( VT( p[0] ) )( x ) ) U( "exponential", exponential( x ) ) U( "hard_sigmoid", hard_sigmoid( x ) )
    U( "gelu", gelu( x ) ) U( "swish", swish( x ) ) U( "silu", silu( x ) ) U( "tank_shrink", tank_shrink( x ) ) U( "mish", mish( x ) ) U( "lisht", lisht( x ) )
    U( "softmax", softmax( x ) ) U( "crelu", crelu( x ) )
    return 0;
}
