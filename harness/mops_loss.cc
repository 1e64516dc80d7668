#include "mops.hpp"
using namespace ceras;
// the ground truth of the loss factories is a place holder: give the probed expression that concept
namespace ceras { template<> struct is_place_holder< B > : std::true_type {}; }
int make_loss( std::string const& k, pars const& p, args const& a, args& out )
{
    U2( "msle", mean_squared_logarithmic_error( x, y ) ) U2( "squared_loss", squared_loss( x, y ) )
    U2( "mse", ( p.size() ? mse( x, y ) : mean_squared_error( x, y ) ) ) U2( "abs_loss", abs_loss( x, y ) ) U2( "mae", ( p.size() ? mae( x, y ) : mean_absolute_error( x, y ) ) )
    U2( "cross_entropy", cross_entropy( x, y ) ) U2( "bce", binary_cross_entropy_loss( x, y ) ) U2( "xent", cross_entropy_loss( x, y, VT( p[0] ) ) ) U2( "hinge", hinge_loss( x, y ) )
    U2( "mse_f", ( p.size() ? MeanSquaredError()( y )( x ) : MSE()( y )( x ) ) ) U2( "mae_f", ( p.size() ? MeanAbsoluteError()( y )( x ) : MAE()( y )( x ) ) )
    U2( "hinge_f", Hinge()( y )( x ) ) U2( "bce_f", ( p.size() ? BinaryCrossentropy()( y )( x ) : BinaryCrossEntropy()( y )( x ) ) )
    U2( "xent_f", ( p.size() > 1 ? CategoricalCrossentropy( VT( p[0] ) )( y )( x ) : CategoricalCrossEntropy( VT( p[0] ) )( y )( x ) ) )
    return 0;
}
