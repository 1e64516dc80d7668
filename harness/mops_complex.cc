#include "mops.hpp"
using namespace ceras;
#define C2( name, expr ) if ( k == name ) { if ( a.size() ) { complex<B, B> c{ a[0], a[1] }; out.push_back( B{ expr } ); } return 2; }
#define C2C( name, expr ) if ( k == name ) { if ( a.size() ) { complex<B, B> c{ a[0], a[1] }; auto z = expr; out.push_back( B{ real( z ) } ); out.push_back( B{ imag( z ) } ); } return 2; }
#define C4C( name, expr ) if ( k == name ) { if ( a.size() ) { complex<B, B> c{ a[0], a[1] }, d{ a[2], a[3] }; auto z = expr; out.push_back( B{ real( z ) } ); out.push_back( B{ imag( z ) } ); } return 4; }
#define C3C( name, expr ) if ( k == name ) { if ( a.size() ) { complex<B, B> c{ a[0], a[1] }; auto const& e = a[2]; auto z = expr; out.push_back( B{ real( z ) } ); out.push_back( B{ imag( z ) } ); } return 3; }
int make_complex( std::string const& k, pars const& p, args const& a, args& out )
{
    C2( "cabs", abs( c ) ) C2( "cnorm", norm( c ) ) C2( "carg", arg( c ) ) C2( "creal", real( c ) ) C2( "cimag", imag( c ) )
    C2C( "cconj", conj( c ) ) C2C( "cpos", +c ) C2C( "cneg", -c )
    if ( k == "cpolar" ) { if ( a.size() ) { auto z = polar( a[0], a[1] ); out.push_back( B{ real( z ) } ); out.push_back( B{ imag( z ) } ); } return 2; }
    C4C( "cadd", c + d ) C4C( "csub2", c - d ) C4C( "cmul", c * d )
    C3C( "cadde", c + e ) C3C( "eaddc", e + c ) C3C( "csube", c - e ) C3C( "esubc", e - c ) C3C( "cmule", c * e ) C3C( "emulc", e * c )
    return 0;
}
