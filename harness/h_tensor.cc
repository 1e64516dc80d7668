// Driver for programs over ceras tensors: executes the operations of a program on the real library and records, after
// every operation, the shape and the elements of every live tensor.
#include "tr.hpp"
#include <ceras.hpp>
#ifndef VT
#define VT double
#endif
using namespace ceras;
typedef tensor<VT> T;
typedef std::vector<unsigned long> shp;
static std::map<long, T> R;

static std::string snapshot()
{
    std::vector<std::string> hs;
    for ( auto& kv : R )
    {
        tr::json j; T const& t = kv.second;
        auto const s = t.shape();
        std::vector<long> d; VT const* p = t.data();
        for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_int( p[i] ) );
        hs.push_back( j.i( "i", kv.first ).l( "s", s ).l( "d", d ).str() );
    }
    return tr::join( hs );
}
static std::vector<long> ints( T const& t ) { std::vector<long> d; for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_int( t.data()[i] ) ); return d; }
static std::vector<long> scaled( T const& t, double sc ) { std::vector<long> d; for ( auto i = 0UL; i != t.size(); ++i ) d.push_back( tr::as_scaled( t.data()[i], sc ) ); return d; }
static T& reg( long i ) { auto it = R.find( i ); if ( it == R.end() ) { std::fprintf( stderr, "no register %ld\n", i ); _exit( 77 ); } return it->second; }
static void set( long o, T const& t ) { auto it = R.find( o ); if ( it != R.end() ) R.erase( it ); R.emplace( o, t ); }

static void exec_program( std::vector<tr::tokens> const& prog, std::vector<std::string>& out )
{
    std::cout.setstate( std::ios_base::failbit );
    int pos = 0;
    for ( auto const& tk : prog )
    {
        tr::reader r( tk );
        std::string const op = r.word();
        tr::at( pos++, op );
        long o = -1; std::vector<long> a, p, rs, rv; std::vector<std::string> none; 
        auto un = [&]{ o = r.i(); a.push_back( r.i() ); };
        auto bi = [&]{ o = r.i(); a.push_back( r.i() ); a.push_back( r.i() ); };
        auto par = [&]{ p.push_back( r.i() ); return p.back(); };
        auto shape_par = [&]{ auto s = r.shape(); for ( auto x : s ) p.push_back( x ); return s; };
        constexpr double Q = 1000.0;
        auto approx = [&]( T const& t ){ for ( auto x : t.shape() ) rs.push_back( x ); rv = scaled( t, Q ); };
        if ( op == "new" ) { o = r.i(); auto s = shape_par(); auto d = r.ints(); T t{ s }; for ( auto i = 0UL; i != d.size(); ++i ) t[i] = VT( d[i] ); rv = d; set( o, t ); }
        else if ( op == "newv" ) { o = r.i(); auto s = shape_par(); VT const v = VT( r.i() ); T t{ s, v }; rv.push_back( long( v ) ); set( o, t ); }
        else if ( op == "copy" ) { un(); T t{ reg( a[0] ) }; set( o, t ); }
        else if ( op == "assign" ) { un(); reg( o ) = reg( a[0] ); }
        else if ( op == "deep" ) { un(); set( o, reg( a[0] ).deep_copy() ); }
        else if ( op == "fcopy" ) { un(); set( o, copy( reg( a[0] ) ) ); }
        else if ( op == "deepinto" ) { un(); reg( o ).deep_copy( reg( a[0] ) ); }
        else if ( op == "poke" ) { a.push_back( r.i() ); long i = par(), v = par(); reg( a[0] )[i] = VT( v ); }
        else if ( op == "reset" ) { a.push_back( r.i() ); reg( a[0] ).reset( VT( par() ) ); }
        else if ( op == "mapadd" ) { a.push_back( r.i() ); VT const v = VT( par() ); reg( a[0] ).map( [v]( auto& x ){ x += v; } ); }
        else if ( op == "iadd" ) { a.push_back( r.i() ); a.push_back( r.i() ); reg( a[0] ) += reg( a[1] ); }
        else if ( op == "isub" ) { a.push_back( r.i() ); a.push_back( r.i() ); reg( a[0] ) -= reg( a[1] ); }
        else if ( op == "imul" ) { a.push_back( r.i() ); a.push_back( r.i() ); reg( a[0] ) *= reg( a[1] ); }
        else if ( op == "idiv" ) { a.push_back( r.i() ); a.push_back( r.i() ); reg( a[0] ) /= reg( a[1] ); }
        else if ( op == "iadds" ) { a.push_back( r.i() ); reg( a[0] ) += VT( par() ); }
        else if ( op == "isubs" ) { a.push_back( r.i() ); reg( a[0] ) -= VT( par() ); }
        else if ( op == "imuls" ) { a.push_back( r.i() ); reg( a[0] ) *= VT( par() ); }
        else if ( op == "idivs" ) { a.push_back( r.i() ); reg( a[0] ) /= VT( par() ); }
        else if ( op == "reshapein" ) { a.push_back( r.i() ); reg( a[0] ).reshape( shape_par() ); }
        else if ( op == "resize" ) { a.push_back( r.i() ); reg( a[0] ).resize( shape_par() ); }
        else if ( op == "reshape" ) { un(); auto s = shape_par(); set( o, reshape( std::as_const( reg( a[0] ) ), s ) ); }
        else if ( op == "squeeze" ) { un(); set( o, squeeze( reg( a[0] ) ) ); }
        else if ( op == "squeezeax" ) { un(); set( o, squeeze( reg( a[0] ), int( par() ) ) ); }
        else if ( op == "clip" ) { un(); long lo = par(), hi = par(); set( o, clip( reg( a[0] ), VT( lo ), VT( hi ) ) ); }
        else if ( op == "add" ) { bi(); set( o, reg( a[0] ) + reg( a[1] ) ); }
        else if ( op == "sub" ) { bi(); set( o, reg( a[0] ) - reg( a[1] ) ); }
        else if ( op == "adds" ) { un(); set( o, reg( a[0] ) + VT( par() ) ); }
        else if ( op == "sadd" ) { un(); set( o, VT( par() ) + reg( a[0] ) ); }
        else if ( op == "subs" ) { un(); set( o, reg( a[0] ) - VT( par() ) ); }
        else if ( op == "ssub" ) { un(); set( o, VT( par() ) - reg( a[0] ) ); }
        else if ( op == "muls" ) { un(); set( o, reg( a[0] ) * VT( par() ) ); }
        else if ( op == "smul" ) { un(); set( o, VT( par() ) * reg( a[0] ) ); }
        else if ( op == "divs" ) { un(); set( o, reg( a[0] ) / VT( par() ) ); }
        else if ( op == "neg" ) { un(); set( o, -reg( a[0] ) ); }
        else if ( op == "abs" ) { un(); set( o, abs( reg( a[0] ) ) ); }
        else if ( op == "emul" ) { bi(); set( o, elementwise_product( reg( a[0] ), reg( a[1] ) ) ); }
        else if ( op == "hmul" ) { bi(); set( o, hadamard_product( reg( a[0] ), reg( a[1] ) ) ); }
        else if ( op == "ediv" ) { bi(); set( o, elementwise_divide( reg( a[0] ), reg( a[1] ) ) ); }
        else if ( op == "mm" ) { bi(); set( o, reg( a[0] ) * reg( a[1] ) ); }
        else if ( op == "mminto" ) { bi(); multiply( reg( a[0] ), reg( a[1] ), reg( o ) ); }
        else if ( op == "gemm" ) { bi(); long ta = par(), tb = par(), m = par(), n = par(), k = par(); T c{ shp{ (unsigned long)m, (unsigned long)k }, VT( 7 ) };
                                   gemm( reg( a[0] ).data(), bool( ta ), reg( a[1] ).data(), bool( tb ), m, n, k, c.data() ); set( o, c ); }
        else if ( op == "flip" ) { un(); set( o, flip( reg( a[0] ), int( par() ) ) ); }
        else if ( op == "repeat" ) { un(); set( o, repeat( reg( a[0] ), (unsigned long)par() ) ); }
        else if ( op == "concat" ) { bi(); set( o, concatenate( reg( a[0] ), reg( a[1] ), (unsigned long)par() ) ); }
        else if ( op == "repmat" ) { un(); long x = par(), y = par(); set( o, repmat( reg( a[0] ), x, y ) ); }
        else if ( op == "ones" ) { o = r.i(); set( o, ones<VT>( shape_par() ) ); }
        else if ( op == "zeros" ) { o = r.i(); set( o, zeros<VT>( shape_par() ) ); }
        else if ( op == "oneslike" ) { un(); set( o, ones_like( reg( a[0] ) ) ); }
        else if ( op == "zeroslike" ) { un(); set( o, zeros_like( reg( a[0] ) ) ); }
        else if ( op == "linspace" ) { o = r.i(); long s = par(), e = par(), n = par(), ep = par(); set( o, linspace<VT>( VT( s ), VT( e ), n, ep ) ); }
        else if ( op == "astype" ) { un(); long k = par(); T& x = reg( a[0] ); if ( k == 0 ) set( o, x.as_type<long>().as_type<VT>() ); else if ( k == 1 ) set( o, x.as_type<VT>() ); else set( o, x.as_type<float>().as_type<double>().as_type<VT>() ); }
        else if ( op == "rsum" ) { un(); set( o, reduce_sum( reg( a[0] ) ) ); }
        else if ( op == "rmean" ) { un(); approx( reduce_mean( reg( a[0] ) ) ); }
        else if ( op == "sumax" ) { un(); long ax = par(), kd = par(); set( o, sum( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "maxax" ) { un(); long ax = par(), kd = par(); set( o, max( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "minax" ) { un(); long ax = par(), kd = par(); set( o, min( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "meanax" ) { un(); long ax = par(), kd = par(); approx( mean( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "varax" ) { un(); long ax = par(), kd = par(); approx( variance( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "stdax" ) { un(); long ax = par(), kd = par(); approx( standard_deviation( reg( a[0] ), (unsigned long)ax, bool( kd ) ) ); }
        else if ( op == "softmax" ) { un(); T t = softmax( reg( a[0] ) ); for ( auto x : t.shape() ) rs.push_back( x ); rv = scaled( t, 1000000.0 ); }
        else if ( op == "sum" ) { un(); rv.push_back( tr::as_int( sum( reg( a[0] ) ) ) ); }
        else if ( op == "max" ) { un(); rv.push_back( tr::as_int( max( reg( a[0] ) ) ) ); }
        else if ( op == "min" ) { un(); rv.push_back( tr::as_int( min( reg( a[0] ) ) ) ); }
        else if ( op == "amax" ) { un(); rv.push_back( tr::as_int( amax( reg( a[0] ) ) ) ); }
        else if ( op == "amin" ) { un(); rv.push_back( tr::as_int( amin( reg( a[0] ) ) ) ); }
        else if ( op == "mean" ) { un(); rv.push_back( tr::as_scaled( mean( reg( a[0] ) ), Q ) ); }
        else if ( op == "var" ) { un(); rv.push_back( tr::as_scaled( var( reg( a[0] ) ), Q ) ); }
        else if ( op == "std" ) { un(); rv.push_back( tr::as_scaled( ceras::std( reg( a[0] ) ), Q ) ); }
        else if ( op == "walk" ) // every way of going through the elements
        {
            un(); T& x = reg( a[0] ); T const& cx = x;
            auto go = [&]( auto b, auto e ){ for ( ; b != e; ++b ) rv.push_back( tr::as_int( *b ) ); };
            go( x.begin(), x.end() ); go( cx.begin(), cx.end() ); go( x.cbegin(), x.cend() ); go( ceras::begin( cx ), ceras::end( cx ) ); go( ceras::begin( x ), ceras::end( x ) ); go( ceras::cbegin( x ), ceras::cend( x ) );
            go( ceras::data( cx ), ceras::data( x ) + ceras::size( x ) );
            go( x.rbegin(), x.rend() ); go( cx.rbegin(), cx.rend() ); go( x.crbegin(), x.crend() ); go( ceras::rbegin( cx ), ceras::rend( cx ) ); go( ceras::rbegin( x ), ceras::rend( x ) ); go( ceras::crbegin( x ), ceras::crend( x ) );
            for ( auto n : ceras::shape( cx ) ) rs.push_back( n );
            rs.push_back( x.ndim() ); rs.push_back( ceras::ndim( x ) ); rs.push_back( x.size() ); rs.push_back( x.empty() || ceras::empty( x ) );
        }
        else if ( op == "bcast" ) { un(); auto s = shape_par(); set( o, broadcast_tensor( reg( a[0] ), s ) ); }
        else if ( op == "bshape" ) { bi(); for ( auto n : broadcast_shape( reg( a[0] ).shape(), reg( a[1] ).shape() ) ) rs.push_back( n ); }
        else if ( op == "drop" ) { a.push_back( r.i() ); R.erase( a[0] ); }
        else { std::fprintf( stderr, "unknown op %s\n", op.c_str() ); _exit( 77 ); }
        tr::json j;
        j.s( "op", op ).i( "o", o ).l( "a", a ).l( "p", p ).l( "rs", rs ).l( "r", rv ).raw( "h", snapshot() );
        out.push_back( j.str() );
    }
}
int main( int argc, char** argv ) { return tr::drive( argc, argv, exec_program ); }
