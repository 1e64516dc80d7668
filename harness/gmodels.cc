// the templates of Models.tla
#include "gmodels.hpp"
using namespace ceras;
std::unique_ptr<any_model> build_model( long k, vlist const& v, std::vector<T> const& c )
{
    place_holder<T> x;
    VT const two = 2, three = 3;
    switch ( k )
    {
        case 1: return wrap( x, x + v[0] );
        case 2: return wrap( x, x * v[0] + v[1] );
        case 3: return wrap( x, relu( x * v[0] + v[1] ) );
        case 4: return wrap( x, relu( x * v[0] + v[1] ) * v[2] );
        case 5: return wrap( x, square( x ) - x );
        case 6: { auto t = hadamard_product( x, v[0] ); return wrap( x, abs( t ) - t ); }
        case 7: return wrap( x, hadamard_product( x, constant<T>{ c[0] } ) + two );
        case 8: return wrap( x, reduce_sum( 0 )( square( x ) ) );
        case 9: return wrap( x, three * flatten( x ) );
        case 10: return wrap( x, v[0] - maximum( x, v[0] ) );
        case 11: return wrap( x, concatenate( 0 )( x, v[0] ) );
        case 12: return wrap( x, two - x );
        case 13: return wrap( x, value<VT>{ three } * ( -x ) );
        case 14: { place_holder<T> p, q; model m1{ p, p * v[0] + v[1] }; model m2{ q, relu( q * v[2] ) }; return wrap( x, m1( m2( x ) ) ); }
        case 15: { place_holder<T> p; model m1{ p, p + v[0] }; return wrap( x, m1( hadamard_product( x, v[0] ) ) ); }
        case 16: { place_holder<T> p, q; model m1{ p, square( p ) }; auto s = model{ q, m1( q + v[0] ) }; return wrap( x, s( -x ) - x ); }
        case 17: return wrap( x, reduce_sum( hadamard_product( x, x ) ) );
        case 18: return wrap( x, identity( transpose( x ) ) );
        default: return {};
    }
}
