// Driver for random tensors: seeds the generator, draws tensors, and records them in units of 1/100000.
#include "tr.hpp"
#include <ceras.hpp>
#ifndef VT
#define VT float
#endif
using namespace ceras;
typedef tensor<VT> T;
typedef std::vector<unsigned long> shp;
static double const U = 1.0e5;
static std::vector<long> units( T const& t ) { std::vector<long> d; for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_scaled( t.data()[i], U ) ); return d; }
static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    auto& s = get_default_session<T>();
    std::map<long, T> memo;
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        tr::json j;
        if ( op == "seed" ) { long k = r.i(), v = r.i(); if ( k == 0 ) random_seed = v; else random_generator.seed( v ); out.push_back( j.s( "op", op ).i( "v", v ).str() ); continue; }
        // draw kind variant {shape} {parameters in units}
        std::string const k = r.word(); long v = r.i(); shp sh = r.shape(); auto p = r.ints();
        tr::at( pos - 1, k );
        VT const a = p.size() > 0 ? VT( p[0] / U ) : VT( 0 ), b = p.size() > 1 ? VT( p[1] / U ) : VT( 0 );
        T arg{ sh }; for ( auto i = 0UL; i != arg.size(); ++i ) arg[i] = k == "poisson" ? VT( p[i % p.size()] / U ) : VT( 1 + i % 5 );
        T arg0 = arg.deep_copy(), y; long gz = 1; // a gradient that does not depend on the input is zero
        if ( k == "uniform" ) y = v == 0 ? random<VT>( sh, a, b ) : v == 1 ? rand<VT>( sh, a, b ) : random_like( arg, a, b );
        else if ( k == "uniform01" ) y = v == 0 ? random<VT>( sh ) : v == 1 ? rand<VT>( sh ) : random_like( arg );
        else if ( k == "normal" && v < 2 ) y = v == 0 ? randn<VT>( sh, a, b ) : randn_like( arg, a, b );
        else if ( k == "normal01" && v < 2 ) y = v == 0 ? randn<VT>( sh ) : randn_like( arg );
        else if ( k == "normal" || k == "normal01" )
        {
            variable<T> x{ arg }; learning_phase = 1;
            auto ex = k == "normal" ? random_normal_like<VT>( a, b )( x ) : random_normal_like<VT>()( x );
            y = s.run( ex ); ex.backward( ones_like( y ) );
            for ( auto i = 0UL; i != arg.size(); ++i ) if ( x.gradient()[i] != VT( 0 ) ) gz = 0;
        }
        else if ( k == "trunc" ) y = truncated_normal<VT>( sh, a, b, VT( p[2] / U ), VT( p[3] / U ) );
        else if ( k == "glorot" ) y = sh.size() == 2 ? glorot_uniform<VT>( { sh[0], sh[1] } ) : glorot_uniform<VT>( { sh[0], sh[1], sh[2] } );
        else if ( k == "poisson" ) { if ( v == 0 ) y = poisson( arg ); else { place_holder<T> x; s.bind( x, arg ); auto ex = poisson( x ); y = s.run( ex ); } }
        else { std::fprintf( stderr, "unknown %s\n", k.c_str() ); _exit( 77 ); }
        long kept = arg.shape() == sh && units( arg ) == units( arg0 ) && y.data() != arg.data();
        auto rs = y.shape();
        std::map<VT, long> times; long top = 0; // how often the most frequent value occurs
        for ( auto i = 0UL; i != y.size(); ++i ) top = std::max( top, ++times[y.data()[i]] );
        out.push_back( j.s( "op", "draw" ).s( "k", k ).i( "v", v ).l( "s", sh ).l( "p", p ).l( "rs", rs ).l( "d", units( y ) ).i( "top", top ).i( "kept", kept ).i( "gz", gz ).str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
