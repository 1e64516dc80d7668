// decimal floating point records of real numbers: [m,e] with m = 0 or 8 digits; [2000000001..3,0] for NaN and the infinities
#ifndef VERIF_DEC_HPP
#define VERIF_DEC_HPP
#include "tr.hpp"
inline std::string dec( double v )
{
    if ( !tr::finite_bits( v ) ) return "[" + std::to_string( tr::nonfinite( v ) ) + ",0]";
    if ( v == 0.0 ) return "[0,0]";
    char b[64]; std::snprintf( b, 64, "%.7e", v ); // d.ddddddde+xx
    std::string s( b ); bool neg = s[0] == '-'; if ( neg ) s = s.substr( 1 );
    auto e = s.find( 'e' );
    std::string m = s.substr( 0, 1 ) + s.substr( 2, 7 );
    long ex = std::stol( s.substr( e + 1 ) ) - 7, mm = std::stol( m );
    if ( mm == 0 ) return "[0,0]";
    return "[" + std::string( neg ? "-" : "" ) + std::to_string( mm ) + "," + std::to_string( ex ) + "]";
}
template< typename Tsor > inline std::string tens( Tsor const& t )
{
    tr::json j; auto sh = t.shape();
    std::vector<std::string> d; Tsor c{ t };
    for ( auto i = 0UL; i != c.size(); ++i ) { auto v = c.data()[i]; d.push_back( tr::finite_bits( v ) ? dec( double( v ) ) : "[" + std::to_string( tr::nonfinite( v ) ) + ",0]" ); }
    return j.l( "s", sh ).raw( "d", tr::join( d ) ).str();
}
#endif
