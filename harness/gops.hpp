// expression building for the graph driver, spread over several translation units
#ifndef VERIF_GOPS_HPP
#define VERIF_GOPS_HPP
#include "box.hpp"
#ifndef VT
#define VT double
#endif
typedef ceras::tensor<VT> T;
typedef vbox::boxed<T> B;
typedef std::vector<unsigned long> shp;
typedef std::vector<B> args;
typedef std::vector<long> pars;
// each returns true if it knows the operator
bool build_arith( std::string const& op, args& a, pars const& p, B& out );
bool build_elem( std::string const& op, args& a, pars const& p, B& out );
bool build_struct( std::string const& op, args& a, pars const& p, B& out );
bool build_image( std::string const& op, args& a, pars const& p, B& out );
inline long& program_number() { static long n = 0; return n; } // set by the driver
// an operator object: every other time one of its own, otherwise the one kept from an earlier application in the same program
template< typename F > auto kept( pars const& p, F const& make )
{
    static std::map<pars, decltype( make() )> m;
    static long n = 0, program = 0;
    if ( program != program_number() ) { m.clear(); n = 0; program = program_number(); }
    return n++ % 3 == 2 ? make() : m.try_emplace( p, make() ).first->second;
}
#define KEPT( ... ) kept( p, [&]{ return __VA_ARGS__; } )
inline shp tail( pars const& p, unsigned long from ) { return shp( p.begin() + from, p.end() ); }
#endif
