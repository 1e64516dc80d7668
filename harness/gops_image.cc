#include "gops.hpp"
using namespace ceras;
bool build_image( std::string const& op, args& a, pars const& p, B& out )
{
    auto pad = []( long s ){ return std::string( s == 1 ? "same" : "valid" ); };
    if ( op == "conv" ) out = B{ KEPT( general_conv2d( p[0], p[1], p[2], p[3], pad( p[4] ) ) )( a[0], a[1] ) };
    else if ( op == "convi" ) out = B{ KEPT( conv2d( p[5], p[6], p[0], p[1], p[2], p[3], pad( p[4] ) ) )( a[0], a[1] ) };
    else if ( op == "im2c" ) // the arguments that have their default values are left out
    {
        bool const plain = p[2] == 0 && p[3] == 0 && p[4] == 1 && p[5] == 1 && p[6] == 1 && p[7] == 1;
        out = plain && p[0] == p[1] ? B{ img2col( p[0] )( a[0] ) } : plain ? B{ img2col( p[0], p[1] )( a[0] ) } : B{ KEPT( img2col( p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7] ) )( a[0] ) };
    }
    else if ( op == "convt" ) out = B{ KEPT( conv2d_transpose( p[0], p[1], p[2], p[3], p[4], p[5], pad( p[6] ) ) )( a[0], a[1] ) };
    else if ( op == "maxpool" ) out = B{ KEPT( max_pooling_2d( p[0] ) )( a[0] ) };
    else if ( op == "avgpool" ) out = B{ KEPT( average_pooling_2d( p[0] ) )( a[0] ) * VT( p[0] * p[0] ) };
    else if ( op == "upsample" ) { static int n = 0; out = n++ % 2 ? B{ upsampling_2d( p[0] )( a[0] ) } : B{ up_sampling_2d( p[0] )( a[0] ) }; }
    else if ( op == "zeropad" ) out = B{ KEPT( zero_padding_2d( tail( p, 0 ) ) )( a[0] ) };
    else if ( op == "crop" ) out = B{ KEPT( cropping_2d( tail( p, 0 ) ) )( a[0] ) };
    else return false;
    return true;
}
